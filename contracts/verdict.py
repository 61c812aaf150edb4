from .base import *

side.fields.update({'LGRFormatTestResults': {'test_result': 'dict[str,bool]'}})

define('failed(r, t)', 't in r.test_result and not r.test_result[t]')
RES = ['self.test_result']
OTHERS = "forall('t:str', implies(t != test_label, (t in self.test_result) == old(t in self.test_result) and implies(t in self.test_result, self.test_result[t] == old(self.test_result[t]))), t in self.test_result)"
_MOD = 'lgr.rfc7940:LGRFormatTestResults.'
for m, ps, ok in (('add_test_result', {'test_label': 'str', 'success': 'bool'}, 'success'), ('error', {'test_label': 'str'}, 'False'),
                  ('tested', {'test_label': 'str'}, 'True')):
    contract(_MOD + m, props=['C15'], params=ps,
             ensures=[('the test counts as run', 'test_label in self.test_result'),
                      ('it counts as failed exactly when it had failed or fails now', 'failed(self, test_label) == (old(failed(self, test_label)) or not %s)' % ok),
                      ('the other tests stay', OTHERS)],
             modifies=RES)

BAD = "t not in r.test_result or (not r.test_result[t] and p[t] != 'IGNORE' and p[t] != 'WARNING')"
predicate('pol_fail(r: LGRFormatTestResults, p: dict[str,str], t: str)', BAD)
predicate('pol_warn(r: LGRFormatTestResults, p: dict[str,str], t: str)', "t in r.test_result and not r.test_result[t] and p[t] == 'WARNING'")
contract(_MOD + 'get_final_result', props=['C15'], params={'policy': 'opt[dict[str,str]]', 'verbose': 'bool'}, returns='str',
         ensures=[('without a policy it is FAIL exactly when a test failed',
                   "implies(not is_some(policy), result == ('FAIL' if any(failed(self, t) for t in self.test_result) else 'PASS'))"),
                  ('the verdict under a policy',
                   "implies(is_some(policy) and not verbose, result == ('FAIL' if any(pol_fail(self, unopt(policy), t) for t in unopt(policy)) else"
                   " ('WARN' if any(pol_warn(self, unopt(policy), t) for t in unopt(policy)) else 'PASS')))")],
         loops={0: {'inv': ["implies(not verbose, info == '')",
                            'got_error == exists("j:int", 0 <= j and j < k and pol_fail(self, policy, items[j]), items[j])',
                            'got_warning == exists("j:int", 0 <= j and j < k and pol_warn(self, policy, items[j]), items[j])']}})

contract('lgr.utils:collapse_codepoints', props=['C16'], params={'codepoints': 'list[int]'}, returns='list[tup[int,int]]',
         requires=['distinct(codepoints)'], locals={'result': 'list[tup[int,int]]'},
         ensures=[('each range is well formed', 'all(r[0] <= r[1] for r in result)'),
                  ('the ranges ascend and leave gaps', "forall('i:int', implies(0 <= i and i + 1 < len(result), result[i][1] + 1 < result[i + 1][0]), seq(result)[i])"),
                  ('exactly the code points are covered', "forall('c:int', (c in codepoints) == exists('i:int', 0 <= i and i < len(result) and result[i][0] <= c and c <= result[i][1], seq(result)[i]), c in codepoints)")],
         loops={0: {'inv': ['first_cp <= last_cp', 'last_cp == seq(codepoints)[k]', 'first_cp >= codepoints[0]', 'all(r[0] <= r[1] for r in result)',
                            "forall('i:int', implies(0 <= i and i + 1 < len(result), result[i][1] + 1 < result[i + 1][0]), seq(result)[i])",
                            'implies(len(result) > 0, result[len(result) - 1][1] + 1 < first_cp)',
                            "forall('i:int', implies(0 <= i and i <= k, (first_cp <= codepoints[i] and codepoints[i] <= last_cp) or any(r[0] <= codepoints[i] and codepoints[i] <= r[1] for r in result)), seq(codepoints)[i])",
                            "forall('c:int', implies(first_cp <= c and c <= last_cp, c in codepoints), c in codepoints)",
                            "forall('c:int, i:int', implies(0 <= i and i < len(result) and result[i][0] <= c and c <= result[i][1], c in codepoints), (c in codepoints, seq(result)[i]))"],
                    'modifies': ['result']}})
