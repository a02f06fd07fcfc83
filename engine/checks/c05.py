from .common import *
from .c01 import values


def run(ck):
    values(ck, ("t1ha1_le", "t1ha1_be"), [C("x64"), C("m32"), C("m32", gcc=False)])
    ck.validate()
    ck.confirm()
