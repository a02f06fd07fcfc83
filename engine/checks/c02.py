from .common import *
from .c01 import values


def run(ck):
    values(ck, ("t1ha2_atonce128",), [C("x64"), C("x64", gcc=False)])
    ck.validate()
    ck.confirm()
