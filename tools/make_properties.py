import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d['anchors']['observe_at']=obs
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,title
    P.append(d)

p('C01','The repertoire is a duplicate-free map keyed by code point sequence',
 'After any sequence of additions and deletions, membership, lookup, length and enumeration of the repertoire agree on one set of code point sequences, each present exactly once. Adding a sequence that is present and deleting or fetching one that is absent are rejected with the documented error and change nothing; every other entry is left untouched by an addition or deletion. Entries that merely share a first code point never shadow one another.',
 ['histories','inputs'],'every sequence of add/delete/lookup calls over every code point and code point sequence',
 'Unit tests try a handful of code points in one fixed order; the claim is over all operation histories and all overlapping sequences sharing a first code point.',
 ['lgr/char.py'],[('Repertoire._add_char/_del_char','lgr/char.py'),('Repertoire.get_char/__contains__/__len__','lgr/char.py'),('CharBase.from_cp_or_sequence','lgr/char.py')],
 ['Repertoire.add_char','Repertoire.del_char','Repertoire.get_char','in','len','iteration'],[('_chardict','entries bucketed by first code point','lgr/char.py:Repertoire')])

p('C02','Repertoire enumeration is ordered and complete; prefix lookup is longest first',
 'Enumerating the repertoire yields every single code point and sequence exactly once in ascending order of first code point then length, and yields exactly one entry (the lowest) for each range. The unordered full enumeration yields every member, leaving out exactly the kinds the caller excluded. Looking up the candidates that start with a code point returns all of them (or all that have variants, when asked) by non-increasing length, and is rejected when there is none.',
 ['inputs','histories'],'every repertoire content: singles, sequences and ranges in any mix and insertion order',
 'Tests check one or two repertoires; order and completeness must hold for every mix of ranges, sequences and singles.',
 ['lgr/char.py'],[('Repertoire.__iter__','lgr/char.py'),('Repertoire.all_repertoire','lgr/char.py'),('Repertoire.get_chars_from_prefix','lgr/char.py')])

p('C03','Ranges add, delete and expand exactly their members and never overlap',
 'Adding a range makes exactly its code points members, all remembering the same first and last code point; a range that shares a code point with an existing range is rejected and nothing changes. Deleting a range requires exactly a range that was added and removes exactly its members, and expanding ranges replaces each with individually stored code points carrying the same attributes, leaving membership unchanged. Asking for the status of a range reports one status per code point in order and changes nothing, not even the validity-checking mode, whatever errors occur on the way.',
 ['inputs','histories'],'every pair of bounds against every set of already inserted ranges and characters',
 'Tests use a few fixed bounds; every relative position of two intervals (disjoint, touching, nested either way, equal) matters.',
 ['lgr/char.py','lgr/core.py'],[('Repertoire.add_range/del_range/_check_range_overlap','lgr/char.py'),('LGR.add_range/del_range/expand_range/check_range','lgr/core.py')])

p('C04','A variant is identified by code points, when and not-when, and stored once',
 'For every character, a variant with given code points and contextual conditions is present exactly when it was added and not deleted since: adding it again is rejected and changes nothing, deleting an absent one reports failure and changes nothing, and deleting one leaves the character\'s other variants as they were, including those with the same code points under other conditions. Enumerating variants yields each exactly once in ascending code point order with the type, comment and references it was added with. Variants cannot be attached to members of a range.',
 ['histories','inputs'],'every history of variant additions and deletions with every combination of conditions',
 'Tests add one or two variants; the identity rule is over all (code points, when, not-when) triples and histories.',
 ['lgr/char.py','lgr/core.py'],[('CharBase.add_variant/del_variant/get_variants','lgr/char.py'),('Variant.__eq__/__hash__','lgr/char.py'),('LGR.add_variant/del_variant','lgr/core.py')])

p('C05','Invalid insertions are rejected before the label generation rules change',
 'Adding a code point, range or variant with both a when and a not-when condition, with an undefined or repeated reference, with repeated tags, with tags on a sequence, or with code points outside the validating repertoire is refused unless forced (or, for the repertoire check, overridden), and a refused insertion leaves the repertoire, the variant types and the tag membership exactly as they were. An accepted insertion stores exactly the attributes given (undefined references dropped when forced) and makes the code points members of the classes of their tags. Deleting a code point withdraws it from the classes of its tags.',
 ['inputs','histories'],'every combination of attributes, flags and prior contents',
 'Tests cover each refusal once on an empty set; the claim is that no refusal leaves a trace for any state and combination.',
 ['lgr/core.py'],[('LGR.add_cp/add_range/add_variant','lgr/core.py'),('LGR._add_cp_to_tag_classes/_del_cp_from_tag_classes','lgr/core.py'),('LGR._check_convert_cp','lgr/core.py')])

p('C06','Label segmentation takes the longest valid match and accounts for every position',
 'Checking a label walks it left to right: at each position the longest repertoire entry that is a prefix of the rest and whose contextual conditions hold is consumed, and otherwise exactly one code point is reported as invalid. The consumed entries and the reported invalid code points, interleaved in order, spell the label exactly. The label is accepted by this step if and only if no code point was reported invalid.',
 ['inputs'],'every label and every repertoire with overlapping sequences and contextual rules',
 'Tests use short labels over small repertoires; segmentation is a loop over arbitrary labels with overlapping sequences.',
 ['lgr/core.py','lgr/char.py'],[('LGR._test_preliminary_eligibility','lgr/core.py'),('CharBase.is_prefix_of','lgr/char.py'),('Repertoire.get_chars_from_prefix','lgr/char.py')],['LGR.test_label_eligible','LGR._test_preliminary_eligibility'])

p('C07','Contextual conditions hold exactly when the named rule says so',
 'A code point or variant with a when condition is permitted at a position exactly when that rule matches the label there, one with a not-when condition exactly when the rule does not match there, and one with neither always. A rule with an empty pattern never matches; a rule that refers to the anchor is evaluated with the anchored code points substituted, searched from the anchor\'s position and accepted only if the match does not start after it; a rule without anchor is searched over the whole label. A malformed pattern is reported as a rule error, never as a silent match or mismatch.',
 ['inputs'],'every label, position, character and rule outcome',
 'Tests evaluate a few rules on a few labels; the anchor position arithmetic and polarity must be right for every rule, label and position.',
 ['lgr/core.py','lgr/rule.py'],[('LGR._test_context_rules','lgr/core.py'),('Rule.matches','lgr/rule.py'),('Rule.get_pattern','lgr/rule.py')])

p('C08','Disposition is decided by the first action whose conditions all hold',
 'An action fires exactly when its match (or not-match) rule condition holds and its variant condition holds: any-variant when some listed type was used, all-variants when at least one type was used and all used types are listed, only-variants when additionally every code point came from a variant mapping. The disposition of a label is that of the first firing action in document order followed by the default actions, reported with that action\'s index, or none with index -1 if no action fires. No action carries both a match and a not-match condition.',
 ['inputs'],'every set of variant types, action list and rule outcome',
 'Tests cover a few action shapes; the decision table is over all type sets, list orders and rule outcomes.',
 ['lgr/action.py','lgr/core.py'],[('Action.apply','lgr/action.py'),('LGR._apply_actions','lgr/core.py'),('LGR.effective_actions','lgr/core.py')])

p('C09','Label evaluation results are coherent and list each label once, original last',
 'A label test reports eligible exactly when segmentation succeeded and the disposition is not invalid, and then its valid part is the whole label and its invalid part empty; a label that fails segmentation is reported invalid with action index -1. Computing dispositions yields each variant label at most once, never one disposed invalid unless asked for, and yields the original label exactly once and last; labels over 63 code points or a missing Unicode database are refused. The summary counts exactly the dispositions listed.',
 ['inputs','configurations'],'every label, repertoire, action list and combination of options',
 'Tests compare a few full outputs; uniqueness, last position and filtering must hold for every label and option.',
 ['lgr/core.py'],[('LGR.test_label_eligible','lgr/core.py'),('LGR.compute_label_disposition','lgr/core.py'),('LGR.compute_label_disposition_summary','lgr/core.py')])

p('C10','Variant labels are exactly the permutations of permitted variants',
 'The generated variant labels of a label are exactly those obtained by walking it left to right over candidate entries and replacing each entry by itself or one of its variants whose contextual conditions hold at that place, with the used variant types collected and the only-variants flag true exactly when every entry was replaced through a mapping. The candidates at a position are the entries that have variants, spell the rest and are permitted there, with the shorter entries beside such a sequence, or, when there is none, the longest entry that spells the rest. A label none of whose entries has variants generates nothing, and an unchanged label may be left out when its last entry has no variants. Entries without a reflexive mapping stand for themselves without contributing a type.',
 ['inputs'],'every label and every variant relation including sequences and reflexive mappings',
 'Tests enumerate a few labels; the recursion must be complete and sound for every label length and overlap.',
 ['lgr/core.py'],[('LGR._generate_label_variants','lgr/core.py'),('LGR._get_prefix_list','lgr/core.py')])

p('C11','The index label is the least member of the variant set and is shared by it',
 'For an eligible label the index label is the least, over all valid segmentations, of the labels obtained by replacing each entry by the least of itself and its permitted variants; when variants have the length of what they replace it is never greater than the label itself. Every enumerated segmentation spells the label and consists of repertoire entries permitted at their place, and every such segmentation is enumerated exactly once. A label that is not in the repertoire is refused; an empty label yields an empty index.',
 ['inputs'],'every label over every symmetric and transitive variant relation',
 'Tests check a few labels; minimality and completeness quantify over all segmentations and variants.',
 ['lgr/core.py'],[('LGR.generate_index_label','lgr/core.py'),('LGR._generate_index_label_on_partition','lgr/core.py'),('LGR._generate_label_partitions','lgr/core.py')])

p('C12','Symmetry, transitivity and condition checks report exactly the defects present',
 'The symmetry check succeeds exactly when every variant of every non-range code point is itself in the repertoire and maps back under the same condition (a variant without condition may map back under any; conditions are disregarded when asked); the transitivity check succeeds exactly when every variant is in the repertoire and every variant of a variant is a variant; the conditional-variant check succeeds exactly when every condition names a defined rule. Every defect found is reported with the code points concerned, and nothing is reported when there is none. The checks do not modify the rules being checked.',
 ['inputs'],'every variant relation with conditions',
 'Tests hold one positive and one negative case each; the verdict is an equivalence over all relations.',
 ['lgr/validate/symmetry.py','lgr/validate/transitivity.py','lgr/validate/conditional_variants.py'],[('check_symmetry','lgr/validate/symmetry.py'),('check_transitivity','lgr/validate/transitivity.py'),('check_conditional_variants','lgr/validate/conditional_variants.py')])

p('C13','Populating variants closes the relation without losing anything',
 'After populating, the variant relation passes the symmetry check (conditions disregarded) and the transitivity check. Every code point and every variant mapping present before is still present with its type, and every code point and mapping added lies in the symmetric-transitive closure of the original relation, added mappings being blocked. A variant that is a member of a range is refused, and an unconditional mapping may take on the condition of its reverse. Populating a set that is already closed changes nothing.',
 ['inputs'],'every variant relation over single code points and sequences',
 'Tests populate one or two sets; closure and minimality are over all relations.',
 ['lgr/populate/__init__.py','lgr/validate/symmetry.py','lgr/validate/transitivity.py'],[('populate_lgr','lgr/populate/__init__.py'),('_add_symmetry/_add_transitivity','lgr/populate/__init__.py')])

p('C14','Reference identifiers are unique and never silently reassigned',
 'Adding a reference never changes an existing one: an identifier that is already defined or malformed is refused, and an automatically chosen identifier is always one not in use. Identifiers are the same whether given as a number or as text. Deleting or updating an unknown reference is refused and changes nothing; deleting removes only that one, and updating changes only the fields given.',
 ['histories','inputs'],'every history of explicit and automatic additions, updates and deletions',
 'Tests run one short history; freshness must survive every interleaving of explicit ids, deletions and automatic ids.',
 ['lgr/metadata.py'],[('ReferenceManager.add_reference/del_reference/update_reference','lgr/metadata.py')])

p('C15','A recorded conformance failure is never masked and the verdict follows policy',
 'Once a conformance test has failed, no later success report turns it into a pass, and a success report never hides other tests. Without a policy the verdict is FAIL exactly when some recorded test failed. With a policy it is FAIL exactly when some listed test was not run or failed with neither IGNORE nor WARNING treatment, otherwise WARN exactly when some listed test failed with WARNING treatment, otherwise PASS.',
 ['histories','configurations'],'every order of success/failure reports and every policy',
 'Tests cover a few fixed policies; stickiness is about all report orders.',
 ['lgr/rfc7940.py','lgr/core.py'],[('LGRFormatTestResults.add_test_result/error/tested','lgr/rfc7940.py'),('LGRFormatTestResults.get_final_result','lgr/rfc7940.py')])

p('C16','Collapsing code points yields the exact maximal disjoint ranges in order',
 'For every non-empty collection of distinct code points, the returned ranges are well formed, ascending, separated by gaps of at least one code point, and cover exactly the given code points. The result does not depend on the order of the input. The textual form lists exactly the same code points.',
 ['inputs'],'every non-empty collection of distinct code points in every order',
 'Tests sample a few lists; exact cover and maximality are over all lists.',
 ['lgr/utils.py','lgr/core.py'],[('collapse_codepoints','lgr/utils.py'),('format_cp_collapsed','lgr/utils.py')])

p('C17','Writing rules to XML and reading them back preserves them',
 'Serializing label generation rules and parsing the result gives the same code points, ranges, sequences, variants, conditions, types, tags, references, comments, rules, classes, actions and metadata. Serializing the result again gives the same document. Each attribute is written exactly when it is set, and read back into the same field it came from. Rules, classes and actions are those a document can express, and a document without metadata is read like one with empty metadata.',
 ['inputs'],'every representable set of label generation rules',
 'Tests round-trip a few sample files; each attribute on each element combination must survive.',
 ['lgr/parser/xml_serializer.py','lgr/parser/xml_parser.py'],[('serialize_lgr_xml','lgr/parser/xml_serializer.py'),('XMLParser._process_*','lgr/parser/xml_parser.py')])

p('C18','Comparing two rule sets yields exactly their set union or intersection',
 'The code points of the union (intersection) of two rule sets are exactly the union (intersection) of their code points, and the same holds for the variants of code points both sets have, the rules and the classes. The actions of the intersection are those both have, those of the union are those of the first followed by those of the second, each once. Types, conditions and tags on which both sides agree are kept, and comments and version values that differ are offered as both. Neither input is modified apart from its ranges being expanded.',
 ['inputs'],'every pair of rule sets',
 'Tests compare a few fixed pairs; set equality is over all pairs.',
 ['lgr/tools/compare/union.py','lgr/tools/compare/intersect.py','lgr/tools/compare/utils.py','lgr/utils.py'],[('union_lgrs','lgr/tools/compare/union.py'),('intersect_lgrs','lgr/tools/compare/intersect.py'),('let_user_choose','lgr/utils.py'),('compare_objects','lgr/tools/compare/utils.py')])

p('C19','Two labels are reported as colliding exactly when their index labels agree',
 'Given a set of labels, every label in the rules is grouped under its index label, two labels fall in one group exactly when their index labels are equal, and labels not in the rules are reported apart and in no group. When checking new labels against a set, a new label is reported exactly when its index equals that of a label of the set or of another new label already accounted for. Invalid labels never hide a collision among the remaining ones, and each pair is reported once.',
 ['inputs'],'every list of labels and every variant relation',
 'Tests use a handful of labels; grouping must be an equivalence over all lists.',
 ['lgr/tools/diff_collisions.py','lgr/core.py'],[('get_collisions','lgr/tools/diff_collisions.py'),('_generate_indexes','lgr/tools/diff_collisions.py'),('is_collision','lgr/tools/diff_collisions.py')])

p('C20','Character classes denote exactly their set algebra, whatever their nesting',
 'A class of listed code points denotes exactly the code points added and not deleted since; a tag class denotes the code points bearing the tag and a reference denotes its target; union, intersection, difference, symmetric difference and complement classes denote exactly that operation on their operands, in order. Evaluating a class never changes any class. Malformed classes (wrong number of operands, undefined reference, name where none is allowed or missing where required) are refused by validation.',
 ['inputs','histories'],'every nesting of class expressions',
 'Tests evaluate one expression per operator; the algebra is over all nestings and operand sets.',
 ['lgr/classes.py'],[('Class.add_codepoint/del_codepoint/get_pattern','lgr/classes.py'),('*Class.get_pattern','lgr/classes.py'),('*Class.validate','lgr/classes.py')])

p('C21','IDN table review verdicts follow the published decision table',
 'For every code point, variant, rule, class and action of the reviewed table and its reference, the review reports one entry with the verdict the decision table prescribes: matching when both agree, subset or exact where applicable, and missing, extra, manual-check or review otherwise. Nothing present on either side is left out. The verdict does not depend on the order of either table.',
 ['inputs'],'every pair of reviewed and reference tables',
 'Tests compare a few reports; totality and each branch of the table must hold for all pairs.',
 ['lgr/tools/idn_review/repertoire.py','lgr/tools/idn_review/classes.py','lgr/tools/idn_review/actions.py','lgr/tools/idn_review/variant_sets.py','lgr/tools/idn_review/utils.py'],[('repertoire report','lgr/tools/idn_review/repertoire.py'),('variant report','lgr/tools/idn_review/variant_sets.py'),('classes report','lgr/tools/idn_review/classes.py'),('actions report','lgr/tools/idn_review/actions.py')])

p('C22','Merging a set of rule sets keeps every code point, variant and reference',
 'The merged set contains exactly the code points of its members, each with every variant it has in any member, and each reference of every member under an identifier that keeps referring to the same value. Rules and classes from different members that share a name stay distinguishable. The members are not modified.',
 ['inputs'],'every list of rule sets with distinct scripts',
 'Tests merge a few files; losslessness is over all lists.',
 ['lgr/tools/merge_set.py'],[('merge_lgr_set','lgr/tools/merge_set.py'),('merge_references/merge_chars/merge_rules','lgr/tools/merge_set.py')])

p('C23','Text code point tables parse to exactly the entries they list',
 'For each supported text table format, a well-formed line contributes exactly the code point or sequence and variants it lists with their references, comment lines contribute nothing, and lines are independent of one another. Code points outside the valid notation are reported as errors and never silently altered. Reading the same table twice gives the same rules.',
 ['inputs'],'every table in the supported formats',
 'Tests parse fixed sample files; the mapping is over all lines.',
 ['lgr/parser/rfc3743_parser.py','lgr/parser/rfc4290_parser.py','lgr/parser/line_parser.py','lgr/parser/heuristic_parser.py'],[('RFC3743Parser','lgr/parser/rfc3743_parser.py'),('RFC4290Parser','lgr/parser/rfc4290_parser.py'),('LineParser','lgr/parser/line_parser.py')])

p('C24','Mixed-script filtering keeps exactly the variants in permitted scripts',
 'A code point sequence passes the filter exactly when the script of every one of its code points is permitted. The permitted scripts are those of the label\'s own code points, Common and Inherited aside, plus the companions that Japanese, Korean and Chinese writing allow; nothing else is added or lost. Alternative scripts for a whole-label variant are exactly those, other than the permitted ones, in which every position of the label that begins an entry has a variant.',
 ['inputs'],'every label, repertoire and script assignment',
 'Tests use a few labels; the filter is a set-valued function of all labels and script assignments.',
 ['lgr/mixed_scripts_variant_filter.py'],[('get_permitted_scripts','lgr/mixed_scripts_variant_filter.py'),('BaseMixedScriptsVariantFilter.cp_in_scripts','lgr/mixed_scripts_variant_filter.py'),('MixedScriptsVariantFilter','lgr/mixed_scripts_variant_filter.py')])

p('C25','Validation results depend only on the rules and options, not on earlier calls',
 'Validating a set of rules runs each configured check exactly once, in order, and returns one named result per check; the checks that run depend only on the options of this call. An error in one check is reported as that check\'s result and does not prevent the others. Two validations of equal rules with equal options give equal results, whatever was validated in between.',
 ['histories','configurations'],'every sequence of validations with every combination of options',
 'Tests validate once per process state; the claim is about sequences of calls.',
 ['lgr/validate/__init__.py'],[('validate_lgr','lgr/validate/__init__.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
