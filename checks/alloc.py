"""Memory allocators (P13): spec/Alloc.tla, by trace validation"""
from vf import *


def P13(c):
    exe = build(['alloc'])['alloc']
    m = 10 if THOROUGH else 1

    def go(tag, kinds, num, depth, params, n=40):
        d = dict(N=n, D=depth, Kinds='{' + ','.join('"%s"' % k for k in kinds) + '}', File='""', Jobs='1')
        c.validate(exe, 'Alloc', d, num * m, depth, tag, params, inv=['GenOK'])
    go('heap', ['heap'], 480, 90, [{'init': 4096, 'strict': True}, {'init': 65536, 'strict': True}])
    go('pool', ['pool'], 320, 90, {}, n=60)
    go('frame', ['frame'], 320, 60, {}, n=12)
    go('full', ['heap', 'pool', 'frame'], 320, 90, [{'full': True, 'init': 4096}, {'full': True, 'init': 100000}])
    go('threads', ['heap', 'pool', 'frame'], 240, 90, [{'threads': 4, 'full': True, 'init': 4096}, {'threads': 3, 'init': 4096}], n=60)
    go('threadsPool', ['pool'], 120, 150, [{'threads': 6}], n=120)
    go('threadsHeap', ['heap'], 120, 150, [{'threads': 6, 'init': 4096, 'strict': True}], n=120)


CHECKS = {'P13': ('model_checking', P13)}
