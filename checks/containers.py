"""Map, Set (P11); Array, Deque, Stack, LinkedList (P12): spec/Containers.tla"""
from vf import *


def sim(c, exe, tag, kinds, num, depth, k, maxlen, params):
    d = dict(K=k, D=depth, Sim='TRUE', Ops='{' + ','.join('"%s"' % x for x in kinds) + '}', MaxLen=maxlen)
    c.sim(exe, 'Containers', d, num * (10 if THOROUGH else 1), depth, tag, params)


def bfs(c, exe, tag, kinds, depth, params):
    d = dict(K=3, D=depth, Sim='FALSE', Ops='{' + ','.join('"%s"' % x for x in kinds) + '}', MaxLen=5)
    dist, gen, beh, out = tlc_check(c.wd, 'Containers', d, inv=['TypeOK'], props=['Isolated'], view='View', constraint='Bound', actcon='Emit', tag=tag)
    c.add('states', dist)
    c.add('transitions', gen)
    c.conform(exe, beh, tag, params, last=True)


def P11(c):
    exe = build(['containers'])['containers']
    hs = [{'hash': h, 'cap': cap} for h in range(4) for cap in (0, 5)]
    sim(c, exe, 'map', ['map'], 800, 90, 60, 60, hs)
    sim(c, exe, 'set', ['set'], 800, 90, 60, 60, hs)
    sim(c, exe, 'small', ['map', 'set'], 800, 90, 5, 60, hs)
    bfs(c, exe, 'bfsSet', ['set'], 4 if THOROUGH else 3, {'hash': 1})


def P12(c):
    exe = build(['containers'])['containers']
    hs = [{'cap': 0}, {'cap': 3}]
    sim(c, exe, 'array', ['array'], 600, 90, 5, 70, hs)
    sim(c, exe, 'deque', ['deque'], 800, 90, 5, 70, hs)
    sim(c, exe, 'stack', ['stack', 'list'], 500, 60, 5, 70, hs)
    sim(c, exe, 'mixed', ['array', 'deque', 'stack', 'list'], 300, 90, 5, 70, hs)
    bfs(c, exe, 'bfsDeque', ['deque'], 3, {'cap': 0})


CHECKS = {'P11': ('model_checking', P11), 'P12': ('model_checking', P12)}
