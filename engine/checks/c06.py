from .common import *
from .c01 import values


def run(ck):
    values(ck, ("t1ha0_32le", "t1ha0_32be"), [C("x64"), C("m32"), C("llp64")])
    ck.validate()
    ck.confirm()
