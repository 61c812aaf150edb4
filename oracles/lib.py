"""Shared generators and helpers of the bounded checks."""
from lgr.exceptions import LGRException


def seqs(rng, alphabet=4, maxlen=3, base=0x61):
    return [base + rng.randrange(alphabet) for _ in range(rng.choice([1, 1, 1, 2, 2, maxlen]))]


def raises(f, *exc):
    """-> ('ok', value) or ('exc', name)"""
    try:
        return 'ok', f()
    except exc as e:
        return 'exc', type(e).__name__


def try_(f):
    try:
        return 'ok', f()
    except LGRException as e:
        return 'exc', type(e).__name__


def unidb():
    global _UDB
    try:
        return _UDB
    except NameError:
        from lgr.test_utils.unicode_database_mock import UnicodeDatabaseMock
        _UDB = UnicodeDatabaseMock()
        return _UDB


class PermissiveUnidb(object):
    """a Unicode database under which every code point is IDNA valid"""


def char_view(c):
    """everything observable about an entry of a repertoire"""
    from lgr.char import RangeChar
    r = (c.first_cp, c.last_cp) if isinstance(c, RangeChar) else None
    return {'cp': list(c.cp), 'comment': c.comment, 'ref': list(c.references), 'tag': list(c.tags), 'when': c.when, 'not_when': c.not_when,
            'range': list(r) if r else None,
            'var': sorted(([list(v.cp), v.type, v.when, v.not_when, v.comment, list(v.references)] for v in c.get_variants()), key=repr)}


def rep_view(rep):
    return sorted((char_view(c) for c in rep.all_repertoire()), key=repr)


def lgr_view(l):
    """a deep snapshot of a set of rules"""
    md = l.metadata
    return {'rep': rep_view(l.repertoire), 'ranges': sorted(map(list, l.repertoire.ranges)),
            'types': sorted(map(repr, l.types)),
            'tags': {k: sorted(map(repr, getattr(c, '_implicit_codepoints', None) or [])) if False else sorted(c.codepoints)
                     for k, c in l.get_tag_classes().items()},
            'rules': list(l.rules), 'rules_lookup': list(l.rules_lookup), 'classes': list(l.classes), 'classes_lookup': sorted(l.classes_lookup),
            'actions': [repr(vars(a)) for a in l.actions], 'refs': repr(l.reference_manager), 'valid': l.raise_on_invalid_property,
            'md': [md.version.value if md.version else None, md.date, sorted(map(str, md.languages)), md.unicode_version]}


def icu():
    """a Unicode database backed by the installed ICU"""
    global _ICU
    try:
        return _ICU
    except NameError:
        import glob, re
        from munidata.database import PICUDatabase
        f = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libicuuc.so.??'))[-1]
        v = re.search(r'so\.(\d+)', f).group(1)
        _ICU = PICUDatabase('libicuuc.so.' + v, 'libicui18n.so.' + v, v)
        return _ICU
