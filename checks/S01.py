"""S01: form of the completeness table."""
from vp.concrete import load_check

_m = load_check('S02')
ASSUMPTIONS = _m.ASSUMPTIONS


def scenarios(tier):
    return _m.scenarios(tier, _m.form)
