"""Operand alphabets shared by the algebra-like checks.  Simplest first."""
import numpy as np

from .ref import Tf, Ss, Num

# single entries (num, den)
E = dict(
    k0=([0], [1]), k1=([1], [1]), k3=([3], [1]), km=([-2], [1]), kq=([4], [2]), kz=([5], [-10]),
    p1=([1], [1, 2]), p2=([3], [2, 4]), bp=([2, 1], [1, 3]), bn=([1, -1], [-2, -3]),
    cx=([1, 0], [1, 2, 5]), dd=([1], [1, 2, 1]), rp=([1, 4], [1, 3, 2]), bq=([1, 0, 1], [1, 2, 5]),
    it=([1], [1, 0]), z1=([0], [1, 1]), sh=([2, 1], [1, 3, 2]), tr=([1, 2, 3], [1, 6, 11, 6]),
    q4=([1, 1], [1, 1, 1]), ca=([1, 1], [1, 3, 2]),
)


def T(*rows):
    return Tf([[E[x] for x in r.split()] for r in rows])


TRANSFERS = dict(
    # 1x1 static, dynamic
    t_k0=T('k0'), t_k3=T('k3'), t_kq=T('kq'), t_kz=T('kz'),
    t_p1=T('p1'), t_p2=T('p2'), t_bp=T('bp'), t_bn=T('bn'), t_cx=T('cx'), t_dd=T('dd'),
    t_it=T('it'), t_z1=T('z1'), t_bq=T('bq'), t_tr=T('tr'), t_ca=T('ca'),
    # 1x2, 2x1
    t12_k=T('k3 kq'), t12_d=T('p1 bp'), t12_m=T('k3 dd'),
    t21_k=T('km', 'k1'), t21_d=T('cx', 'p1'), t21_m=T('bn', 'k0'),
    # 2x2
    t22_k=T('k3 k1', 'km kq'), t22_s=T('k1 k1', 'k1 k1'), t22_d=T('p1 bp', 'rp cx'),
    t22_b=T('bp k1', 'k0 bn'), t22_z=T('p1 k0', 'z1 p2'), t22_h=T('sh ca', 'rp p1'),
    # 1x3 3x1
    t13_d=T('p1 it k0'), t31_k=T('k1', 'k0', 'km'), t31_d=T('p2', 'k3', 'bq'),
    # 2x3, 3x2, 3x3
    t23_k=T('k3 k0 k1', 'kq km k1'), t23_d=T('p1 k3 k0', 'bp it dd'),
    t32_k=T('k1 k0', 'k3 km', 'kq k1'), t32_d=T('p2 k1', 'k0 bq', 'rp p1'),
    t33_d=T('bp k0 p1', 'k1 bn k0', 'p1 p2 k3'),
)

SCALARS = dict(
    n_0=Num(0), n_2=Num(2), n_m=Num(-1.5), n_f=Num(np.float64(0.5)),
)
ARRAYS = dict(
    a11=Num(np.array([[2.]])), a12=Num(np.array([[1., -2.]])), a21=Num(np.array([[3.], [1.]])),
    a22=Num(np.array([[1., 2.], [3., 4.]])), a22i=Num(np.array([[1, 0], [2, 1]])),
    a22z=Num(np.zeros((2, 2))), a22s=Num(np.array([[1., 0.], [0., 0.]])),
    a23=Num(np.array([[1., 0., -1.], [2., 1., 0.]])),
    a32=Num(np.array([[1., 0.], [0., 2.], [3., 1.]])),
    a13=Num(np.array([[1., 0., 2.]])), a31=Num(np.array([[0.], [1.], [2.]])),
    a22c=Num(np.array([[1.+0j, 2.], [0., 1.]])),
    v2=Num(np.array([2., 1.])), v1=Num(np.array([3.])),
)
# always refused
BAD = dict(x_cs=1+2j, x_ca=np.array([[1+1j, 0], [0, 1]]), x_str='a', x_none=None, x_list=[1, 2])


def S(a, b, c, d):
    return Ss(a, b, c, d)


A2 = [[0, 1], [-2, -3]]
A3 = [[-1, 1, 0], [0, -2, 1], [0, 0, -3]]
AC = [[-1, 2], [-2, -1]]
STATES = dict(
    s_k0=Ss(None, None, None, [[0]]), s_k3=Ss(None, None, None, [[3]]),
    s_km=Ss(None, None, None, [[-0.5]]),
    s_p1=S([[-2]], [[1]], [[1]], [[0]]), s_bp=S([[-3]], [[1]], [[-5]], [[2]]),
    s_2=S(A2, [[0], [1]], [[4, 1]], [[0]]), s_2b=S(AC, [[1], [0]], [[0, 1]], [[-1]]),
    s_3=S(A3, [[0], [0], [1]], [[1, 0, 1]], [[0.5]]),
    s_i=S([[0]], [[1]], [[1]], [[0]]), s_dd=S([[-1, 1], [0, -1]], [[0], [1]], [[1, 0]], [[0]]),
    s_u=S([[-1, 0], [0, -2]], [[1], [0]], [[1, 1]], [[1]]),
    s12_k=Ss(None, None, None, [[3, 2]]), s12_d=S(A2, [[1, 0], [0, 1]], [[1, 2]], [[0, 1]]),
    s12_1=S([[-4]], [[1, 2]], [[3]], [[0, 0]]),
    s21_k=Ss(None, None, None, [[-2], [1]]), s21_d=S(AC, [[1], [2]], [[1, 0], [0, 1]], [[1], [0]]),
    s22_k=Ss(None, None, None, [[3, 1], [-2, 2]]), s22_s=Ss(None, None, None, [[1, 2], [2, 4]]),
    s22_d=S(A2, [[1, 0], [0, 1]], [[1, 2], [3, 4]], [[0, 0], [0, 0]]),
    s22_b=S(A3, [[1, 0], [0, 1], [1, 1]], [[1, 0, 1], [0, 1, 0]], [[1, 2], [0, 1]]),
    s22_1=S([[-1]], [[1, 2]], [[1], [3]], [[1, 0], [0, 1]]),
    s22_n=S(AC, [[1, 1], [0, 1]], [[1, 0], [1, 1]], [[1, 1], [1, 1]]),
    s23_k=Ss(None, None, None, [[1, 0, -1], [2, 1, 0]]),
    s23_d=S(A2, [[1, 0, 2], [0, 1, 1]], [[1, 0], [1, 1]], [[0, 1, 0], [0, 0, 2]]),
    s32_k=Ss(None, None, None, [[1, 0], [0, 2], [3, 1]]),
    s32_d=S(A3, [[1, 0], [0, 1], [1, 1]], [[1, 0, 0], [0, 1, 0], [0, 1, 1]], np.zeros((3, 2))),
    s31_d=S(A2, [[1], [0]], [[1, 0], [0, 1], [1, 1]], [[0], [1], [0]]),
    s13_d=S([[-2]], [[1, 0, 2]], [[1]], [[0, 1, 0]]),
    s33_d=S(AC, [[1, 0, 0], [0, 1, 1]], [[1, 0], [0, 1], [1, 1]], np.eye(3)),
)

NUMS = dict(SCALARS)
NUMS.update(ARRAYS)
ALL = dict(TRANSFERS)
ALL.update(STATES)
ALL.update(NUMS)
