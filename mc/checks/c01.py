"""Transfer arithmetic: all operand pairs and all two-operator expressions."""
from .. import alpha
from ..expr import enum_pairs, enum_nested, run    # noqa: run is the entry point

NAMES = list(alpha.TRANSFERS)
SMALL = ['t_kq', 't_p1', 't_bn', 't_z1', 't12_d', 't21_m', 't22_k', 't22_b', 't22_d', 'n_2', 'a22']
MEDIUM = SMALL + ['t_k0', 't_it', 't_dd', 't_cx', 't12_k', 't21_k', 't23_d', 't32_d', 't22_z',
                  'n_0', 'a12', 'a21', 'a22s']
BOUNDS = dict(quick='pairs: %d transfers, %d numeric operands, 5 operators, 2 time domains; '
              'nested: 2 operators over %d operands' % (len(NAMES), len(alpha.NUMS), len(SMALL)),
              thorough='as quick, nested over %d operands' % len(MEDIUM))
ASSUMPTIONS = ['values compared on 15 complex points and at infinity, relative tolerance 1e-6 (1e-4 nested), '
               'points within 1e-4 of a pole of the reference are left out',
               'entry-by-entry division by arrays with more than one element and 1-D arrays '
               'in shapes where numpy and harold read them differently are not judged']


def cases(tier):
    if tier == 'quick':
        return enum_pairs(NAMES) + enum_nested(SMALL, SMALL, SMALL, 'c')
    return enum_pairs(NAMES) + enum_nested(MEDIUM, MEDIUM, MEDIUM, 'cd')
