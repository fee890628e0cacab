"""The checks that are decided by spec/World.tla."""
from vf import *

BASE = dict(NB=4, NC=6, NJ=2, D=60, Sim='TRUE', Xs='0..3', Ys='0..1', Zs='0..1', Kinds='{"box","bar","sph","cap","hul","hsc","hof","pln","shl"}', Turns='TRUE',
            Offs='{<<0,0,0>>,<<4,0,0>>,<<0,-4,0>>}', Vels='{<<0,0,0>>,<<2,0,0>>,<<-2,0,0>>,<<0,2,0>>}', Cats='{1}', Masks='{65535}', FlagMode='"sim"')
LINE = dict(Ys='{0}', Zs='{0}', Turns='FALSE', Kinds='{"box","bar","sph"}', Offs='{<<0,0,0>>,<<4,0,0>>}', Vels='{<<0,0,0>>,<<2,0,0>>,<<-2,0,0>>}')
UNITS = (1 / 16, 16, 1 / 4, 1)     # metres per unit of the lattice: the answers of the queries must not depend on it
INV = ['TypeOK', 'RestInv', 'PrevInv', 'JntInv', 'ColInv']


def ops(*names):
    return '{' + ','.join('"%s"' % n for n in names) + '}'


MAKE = ('createBody', 'addCollider', 'update')
BODY = ('destroyBody', 'setActive', 'setType', 'setTransform', 'setVel')
COLL = ('removeCollider', 'setLocal')
FLAG = ('setSim', 'setTrig')
FILT = ('setCat', 'setMask')
SLP = ('setSleeping', 'setAllow', 'enableSleeping', 'setSleepCfg')
JNT = ('createJoint', 'destroyJoint')
QRY = ('testOverlap', 'testCollision')
ALL = MAKE + BODY + COLL + FLAG + FILT + SLP + JNT + QRY + ('ray', 'point', 'aabb', 'setWQ')


def scale(n):
    return n * (12 if THOROUGH else 1)


def sim(c, exe, tag, num, depth, opset, inv=INV, units=(1,), **over):
    d = dict(BASE)
    d.update(over)
    d.update(D=depth, Ops=ops(*opset))
    c.sim(exe, 'World', d, scale(num), depth, tag, [{'NB': d['NB'], 'NC': d['NC'], 'unit': u} for u in units], inv=inv)


def bfs(c, exe, tag, depth, opset, **over):
    d = dict(BASE)
    d.update(NB=2, NC=2, NJ=1, Sim='FALSE', Xs='{0,1}', Ys='{0}', Zs='{0}', Kinds='{"box"}', Turns='FALSE', Offs='{<<0,0,0>>}',
             Vels='{<<0,0,0>>,<<2,0,0>>}')
    d.update(over)
    d.update(D=depth, Ops=ops(*opset))
    dist, gen, beh, out = tlc_check(c.wd, 'World', d, spec='Spec2', inv=INV, props=['Protocol', 'OnlyUpdateOpens'], view='View', constraint='Bound',
                                    actcon='Emit', tag=tag)
    c.add('states', dist)
    c.add('transitions', gen)
    c.conform(exe, beh, tag, {'NB': d['NB'], 'NC': d['NC']}, last=True)


def P01(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfsBody', 8 if THOROUGH else 7, MAKE[2:] + ('setActive', 'setTransform', 'setType', 'removeCollider'))
    bfs(c, exe, 'bfsMove', 9 if THOROUGH else 7, MAKE[2:] + ('setVel', 'setSleeping', 'setTransform'))
    sim(c, exe, 'dense', 800, 60, MAKE + BODY + COLL + ('setSleeping', 'setAllow'), **LINE)
    sim(c, exe, 'shapes', 800, 60, MAKE + BODY + COLL + QRY, Turns='TRUE', units=(1, 1 / 4, 1, 4))
    sim(c, exe, 'mixed', 600, 60, MAKE + BODY + COLL + FLAG + FILT + SLP + JNT, Cats='{1,2}', Masks='{65535,1}', FlagMode='"any"')


def P02(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfs', 8 if THOROUGH else 7, MAKE[2:] + ('setActive', 'setTransform', 'setSleeping'), FlagMode='"trig"')
    bfs(c, exe, 'bfsFlag', 8 if THOROUGH else 7, MAKE[2:] + FLAG + ('setTransform',), FlagMode='"any"')
    sim(c, exe, 'dense', 900, 60, MAKE + BODY + COLL + ('setSleeping', 'setAllow', 'setTrig'), FlagMode='"trig"', **LINE)
    sim(c, exe, 'shapes', 900, 60, MAKE + BODY + COLL + FLAG + SLP, FlagMode='"trig"')


def P03(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfsFilter', 8 if THOROUGH else 7, MAKE[2:] + FILT, Cats='{1,2}', Masks='{65535,1}')
    bfs(c, exe, 'bfsJoint', 9 if THOROUGH else 8, MAKE[2:] + JNT + ('setTransform',), NJ=2)
    bfs(c, exe, 'bfsFlag', 8 if THOROUGH else 7, MAKE[2:] + FLAG + ('setType',), FlagMode='"any"')
    k = dict(Cats='{1,2,3,4}', Masks='{65535,1,2,3,5}', FlagMode='"any"')
    sim(c, exe, 'filter', 900, 60, MAKE + BODY + FILT + FLAG + QRY, **dict(LINE, **k))
    sim(c, exe, 'joints', 700, 60, MAKE + BODY + JNT + JNT + QRY, NJ=4, **LINE)
    sim(c, exe, 'mixed', 700, 60, MAKE + BODY + COLL + JNT + FILT + FLAG + SLP + QRY, **k)


def P04(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfs', 7 if THOROUGH else 6, MAKE[2:] + QRY + ('setSleeping', 'setType', 'setActive', 'setTransform'))
    bfs(c, exe, 'bfsFlag', 7 if THOROUGH else 6, MAKE[2:] + QRY + ('setTrig', 'setWQ', 'setTransform'), FlagMode='"any"')
    q = MAKE + BODY + COLL + QRY + ('setWQ', 'setSleeping')
    sim(c, exe, 'shapes', 1000, 60, q, Vels='{<<0,0,0>>,<<2,0,0>>,<<0,0,2>>}')
    sim(c, exe, 'dense', 700, 60, q + FLAG + FILT + JNT, FlagMode='"any"', Cats='{1,2}', Masks='{65535,1}', **LINE)


def P05(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfsSleep', 9 if THOROUGH else 7, MAKE[2:] + ('setSleeping', 'setVel', 'setAllow'))
    bfs(c, exe, 'bfsCfg', 9 if THOROUGH else 7, MAKE[2:] + ('enableSleeping', 'setSleeping', 'setType', 'setActive'))
    bfs(c, exe, 'bfsJoint', 9 if THOROUGH else 7, MAKE[2:] + ('createJoint', 'destroyJoint', 'setSleeping'))
    s = MAKE + SLP + ('setVel', 'setTransform', 'update')
    sim(c, exe, 'islands', 900, 60, s, NB=5, NC=5, **dict(LINE, Xs='0..4'))
    sim(c, exe, 'neighbours', 900, 60, MAKE + ('setSleeping', 'destroyBody', 'removeCollider', 'setLocal', 'setActive', 'setType'), NB=5, NC=7, **LINE)
    sim(c, exe, 'joints', 600, 60, s + JNT + ('destroyBody', 'setType'), NB=5, NC=4, NJ=4, **dict(LINE, Xs='0..5'))


def P08(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfs', 7 if THOROUGH else 6, ('createBody', 'destroyBody', 'addCollider', 'removeCollider', 'update', 'setTransform'), NC=3)
    life = ('createBody', 'destroyBody', 'addCollider', 'removeCollider', 'setTransform', 'setLocal', 'setCat', 'setMask', 'setWQ', 'setSim', 'setTrig', 'setActive', 'setType', 'setAllow')
    k = dict(Cats='{1,2,3,4}', Masks='{65535,1,2,3,5}', FlagMode='"any"')
    sim(c, exe, 'churn', 900, 80, life + ('update',), NB=8, NC=12, **k)
    sim(c, exe, 'joints', 500, 80, life + JNT + JNT + ('update',), NB=8, NC=8, NJ=8, **k)
    sim(c, exe, 'all', 600, 60, ALL, **k)


def P09(c):
    exe = build(['world'])['world']
    bfs(c, exe, 'bfs', 6, ('ray', 'setTransform', 'setActive', 'setWQ'), Xs='{0,1}')
    r = ('createBody', 'addCollider', 'addCollider', 'ray')
    sim(c, exe, 'rays', 700, 60, r + ('setTransform', 'update', 'setLocal'), Cats='{1,2}', Masks='{65535,1}')
    sim(c, exe, 'raysScaled', 900, 60, r + ('setTransform', 'setLocal', 'setType'), Cats='{1,2}', Masks='{65535,1}', units=UNITS)
    sim(c, exe, 'raysAll', 900, 60, r + BODY + COLL + FLAG + FILT + ('update', 'setWQ', 'setSleeping'), Cats='{1,2,3}', Masks='{65535,1,2}', FlagMode='"any"')
    sim(c, exe, 'raysLine', 500, 60, r + BODY + ('setWQ', 'setCat'), Cats='{1,2,3}', Masks='{65535,1,2}', **dict(LINE, Xs='0..4'))


def P23(c):
    exe = build(['world'])['world']
    r = ('createBody', 'addCollider', 'addCollider', 'point', 'aabb')
    sim(c, exe, 'points', 900, 60, r + ('setTransform', 'update', 'setLocal'))
    sim(c, exe, 'pointsScaled', 900, 60, r + ('setTransform', 'setLocal'), units=UNITS)
    sim(c, exe, 'pointsAll', 900, 60, r + BODY + COLL + ('update', 'setSleeping'))


def P18(c):
    """Behaviours of several worlds, interleaved call by call in one PhysicsCommon, and each run twice."""
    exe = build(['world'])['world']
    k = dict(Cats='{1,2}', Masks='{65535,1}', FlagMode='"any"')
    d = dict(BASE)
    d.update(k)
    d.update(D=50, Ops=ops(*ALL))
    beh = tlc_simulate(c.wd, 'World', d, scale(900), 50, tag='iso', inv=INV)
    c.add('states', sum(len(b) + 1 for b in beh))
    c.add('transitions', sum(len(b) for b in beh))
    # interleave three behaviours
    import random
    rnd = random.Random(SEED)
    out = []
    for i in range(0, len(beh) - 2, 3):
        its = [list(b) for b in beh[i:i + 3]]
        mix = []
        while any(its):
            k_ = rnd.choice([j for j in range(3) if its[j]])
            for _ in range(rnd.choice([1, 1, 2, 5])):
                if its[k_]:
                    o = dict(its[k_].pop(0))
                    o['wi'] = k_
                    mix.append(o)
        out.append(mix)
    c.conform(exe, out, 'isolation', {'NB': d['NB'], 'NC': d['NC'], 'nw': 3})


CHECKS = {k: ('model_checking', v) for k, v in dict(P01=P01, P02=P02, P03=P03, P04=P04, P05=P05, P08=P08, P09=P09, P23=P23, P18=P18).items()}
