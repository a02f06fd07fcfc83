from .common import *
from .c01 import values


def run(ck):
    values(ck, AES, [C("x64"), C("m32"), C("llp64")])
    ck.validate()
    ck.confirm()
