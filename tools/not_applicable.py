NA = {
    'C13': 'populate_lgr changes the repertoire while it walks a worklist until the checks succeed; its closure as an inductive postcondition is beyond what the '
           'solvers discharged, and its first loop reads a generator whose source it changes. Only a bounded check (oracles/C13.py) exists.',
    'C17': 'the reader and the writer are walks over lxml element trees with dispatch on strings: the round trip cannot be stated over contracts '
           'without one for lxml and for parsing of text. Only a bounded check (oracles/C17.py) exists.',
    'C19': 'the groups are dictionaries of records of mixed types built in a nested function over index labels; no contract of it is discharged. '
           'Only a bounded check (oracles/C19.py) exists.',
}
