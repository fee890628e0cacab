"""Free motion (P06), mass properties (P15), frames (P22): spec/Motion.tla"""
from vf import *

ALL = ('make', 'destroy', 'collider', 'resize', 'mass', 'lock', 'damp', 'grav', 'vel', 'transform', 'type', 'sleep', 'active', 'force', 'update', 'conv')
PROPS = ['Locked', 'ForcesReset']


def ops(names):
    return '{' + ','.join('"%s"' % x for x in names) + '}'


def sim(c, exe, tag, num, depth, names, NB=3, NC=5):
    d = dict(NB=NB, NC=NC, D=depth, Sim='TRUE', Ops=ops(names))
    c.sim(exe, 'Motion', d, num * (10 if THOROUGH else 1), depth, tag, {'NB': NB, 'NC': NC})


def bfs(c, exe, tag, depth, names):
    d = dict(NB=1, NC=1, D=depth, Sim='FALSE', Ops=ops(names))
    dist, gen, beh, out = tlc_check(c.wd, 'Motion', d, spec='Spec1', inv=['TypeOK'], props=PROPS, view='View', actcon='Emit', tag=tag)
    c.add('states', dist)
    c.add('transitions', gen)
    c.conform(exe, beh, tag, {'NB': 1, 'NC': 1}, last=True)


def P06(c):
    exe = build(['motion'])['motion']
    m = ('make', 'vel', 'transform', 'force', 'update')
    bfs(c, exe, 'bfsSet', 8 if THOROUGH else 6, ('vel', 'grav', 'damp', 'update'))
    bfs(c, exe, 'bfsType', 10 if THOROUGH else 7, ('vel', 'type', 'sleep', 'active', 'update'))
    sim(c, exe, 'forces', 320, 60, m + ('tilt',))
    sim(c, exe, 'types', 320, 60, m + ('type', 'sleep', 'active', 'grav', 'damp'))
    sim(c, exe, 'inertia', 320, 60, m + ('mass', 'lock', 'collider'))
    sim(c, exe, 'tilt', 400, 60, m + ('mass', 'lock', 'tilt'))
    sim(c, exe, 'all', 320, 70, ALL + ('tilt',), NB=4, NC=6)


def P15(c):
    exe = build(['motion'])['motion']
    m = ('make', 'collider', 'mass')
    sim(c, exe, 'mass', 800, 50, m, NB=2, NC=6)
    sim(c, exe, 'resize', 640, 50, m + ('resize', 'conv', 'transform'), NB=2, NC=6)
    sim(c, exe, 'moving', 640, 60, m + ('resize', 'vel', 'update', 'type', 'force', 'sleep'), NB=2, NC=5)
    sim(c, exe, 'all', 320, 60, ALL, NB=4, NC=8)


def P22(c):
    exe = build(['motion'])['motion']
    m = ('make', 'transform', 'conv')
    sim(c, exe, 'frames', 640, 50, m + ('vel', 'update'), NB=2, NC=2)
    sim(c, exe, 'colliders', 640, 50, m + ('collider', 'vel', 'update', 'sleep', 'type', 'active'), NB=2, NC=6)
    sim(c, exe, 'all', 480, 70, m + ('mass', 'collider', 'vel', 'update', 'sleep', 'type', 'active', 'force', 'destroy'), NB=5, NC=8)


CHECKS = {'P06': ('model_checking', P06), 'P15': ('model_checking', P15), 'P22': ('model_checking', P22)}
