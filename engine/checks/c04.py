from .streamval import *
from . import alllen


def run(ck):
    cfgs = [C("x64"), C("m32"), C("x64", gcc=False)]
    ck.build(cfgs)
    stream_values(ck, cfgs, 160 if not ck.thorough() else 330)
    alllen.all_updates(ck, cfgs[:1], False)
    if ck.thorough():
        alllen.all_updates(ck, cfgs[1:] , False)
    else:
        alllen.all_updates(ck, [cfgs[1]], False, (0, 5, 31))
    ck.go()
    ck.validate()
    ck.confirm()
