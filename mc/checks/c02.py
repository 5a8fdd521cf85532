"""State arithmetic: all operand pairs and all two-operator expressions."""
from .. import alpha
from ..expr import enum_pairs, enum_nested, run    # noqa: run is the entry point

NAMES = list(alpha.STATES)
SMALL = ['s_k3', 's_p1', 's_2b', 's_3', 's12_d', 's21_d', 's22_k', 's22_d', 's22_b', 's22_1',
         'n_2', 'a22', 'a12']
MEDIUM = SMALL + ['s_k0', 's_bp', 's_i', 's12_k', 's21_k', 's22_n', 's23_d', 's32_d', 's23_k',
                  'n_0', 'a21', 'a23', 'a22s']
BOUNDS = dict(quick='pairs: %d state models, %d numeric operands, 5 operators, 2 time domains; '
              'nested: 2 operators over %d operands' % (len(NAMES), len(alpha.NUMS), len(SMALL)),
              thorough='as quick, nested over %d operands' % len(MEDIUM))
ASSUMPTIONS = ['values compared on 15 complex points and at infinity, relative tolerance 1e-6 '
               '(1e-4 nested), points within 1e-4 of a pole of the reference are left out',
               'entry-by-entry division by arrays with more than one element and 1-D arrays '
               'in shapes where numpy and harold read them differently are not judged']


def cases(tier):
    if tier == 'quick':
        return enum_pairs(NAMES) + enum_nested(SMALL, SMALL, SMALL, 'c')
    return enum_pairs(NAMES) + enum_nested(MEDIUM, MEDIUM, MEDIUM, 'cd')
