"""Dynamic AABB tree (P10): spec/Tree.tla"""
from vf import *

ALL = '{"add","fill","remove","update","reset","query","ray"}'


def P10(c):
    exe = build(['tree'])['tree']
    m = 10 if THOROUGH else 1
    for tag, n, pct, r, num, depth in (('small', 12, 2, 3, 400, 70), ('flat', 12, 0, 3, 400, 70), ('big', 70, 4, 12, 96, 100), ('dense', 60, 2, 3, 96, 100)):
        d = dict(N=n, D=depth, Sim='TRUE', Ops=ALL, Pct=pct, R=r)
        c.sim(exe, 'Tree', d, num * m, depth, tag, [{'Pct': pct}, {'Pct': pct, 'ptr': True}])
    d = dict(N=4 if THOROUGH else 3, D=9 if THOROUGH else 7, Sim='FALSE', Ops='{"add","remove","update","reset","query","ray"}', Pct=4, R=2)
    dist, gen, beh, out = tlc_check(c.wd, 'Tree', d, inv=['TypeOK'], props=['Local', 'Covered'], view='View', constraint='Bound', actcon='Emit', tag='bfs')
    c.add('states', dist)
    c.add('transitions', gen)
    c.conform(exe, beh, 'bfs', {'Pct': 4}, last=True)


CHECKS = {'P10': ('model_checking', P10)}
