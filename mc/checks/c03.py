"""Mixed Transfer/State arithmetic."""
from .. import alpha
from ..algebra import OPS
from ..expr import enum_nested, run    # noqa: run is the entry point

TS, SS = list(alpha.TRANSFERS), list(alpha.STATES)
TSM = ['t_kq', 't_p1', 't_bn', 't12_d', 't21_d', 't22_k', 't22_d', 't22_b']
SSM = ['s_k3', 's_bp', 's_2', 's12_d', 's21_d', 's22_k', 's22_d', 's22_b']
THIRD = ['t_bn', 't22_b', 't21_d', 's_2', 's22_1', 's12_d', 's22_k', 'n_2', 'a22']
BOUNDS = dict(quick='all %d x %d ordered pairs both ways, 5 operators, 2 time domains; nested: '
              '%d x %d pairs with %d third operands'
              % (len(TS), len(SS), len(TSM), len(SSM), len(THIRD)),
              thorough='as quick, nested over all static/dynamic operands up to 2x3')
ASSUMPTIONS = ['values compared on 15 complex points and at infinity, relative tolerance 1e-6 '
               '(1e-4 nested), points within 1e-4 of a pole of the reference are left out']


def cases(tier):
    out = []
    for t in 'cd':
        for x in TS:
            for y in SS:
                for op in OPS:
                    out.append(['pair', t, x, op, y])
                    out.append(['pair', t, y, op, x])
    a, b = (TSM, SSM) if tier == 'quick' else (TSM + ['t_k0', 't_it', 't12_k', 't21_m', 't23_d'],
                                               SSM + ['s_i', 's_3', 's12_k', 's21_k', 's23_d'])
    times = 'c' if tier == 'quick' else 'cd'
    return out + enum_nested(a, b, THIRD, times) + enum_nested(b, a, THIRD, times)
