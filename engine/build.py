"""Compilation of /repo's current sources to LLVM IR, per configuration."""
import atexit
import concurrent.futures
import glob
import os
import shutil
import subprocess
import tempfile
from . import ir, sx

REPO = os.environ.get("T1HA_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = "clang"

_tmp = None
_owner = None


def tmpdir():
    global _tmp, _owner
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="t1ha-verif-")
        _owner = os.getpid()
        atexit.register(_clean)
    return _tmp


def _clean():
    if _tmp and os.getpid() == _owner and os.path.basename(_tmp).startswith("t1ha-verif-"):
        shutil.rmtree(_tmp, ignore_errors=True)


TARGETS = {
    # name: (flags, hosted, x86, pointer bits, big endian)
    "x64": ([], True, True, 64, False),
    "m32": (["-m32"], True, True, 32, False),
    "x32": (["--target=x86_64-linux-gnux32"], False, True, 32, False),
    "llp64": (["--target=x86_64-w64-windows-gnu"], False, True, 64, False),
    "aarch64": (["--target=aarch64-linux-gnu"], False, False, 64, False),
    "arm": (["--target=armv7-linux-gnueabihf"], False, False, 32, False),
    "armv5": (["--target=armv5te-linux-gnueabi"], False, False, 32, False),
    "riscv64": (["--target=riscv64-linux-gnu"], False, False, 64, False),
    "mipsel": (["--target=mipsel-linux-gnu"], False, False, 32, False),
    "ppc64": (["--target=powerpc64-linux-gnu"], False, False, 64, True),
    "s390x": (["--target=s390x-linux-gnu"], False, False, 64, True),
    "mips": (["--target=mips-linux-gnu"], False, False, 32, True),
    "ppc32": (["--target=powerpc-linux-gnu"], False, False, 32, True),
    "aarch64be": (["--target=aarch64_be-linux-gnu"], False, False, 64, True),
}


class Cfg:
    """one build configuration"""

    def __init__(self, target="x64", U=None, O=None, asan=False, debug=False, gcc=True,
                 no128=False, ubsan=False, defs=()):
        self.target = target
        self.U, self.O = U, O
        self.asan, self.debug, self.gcc, self.no128, self.ubsan = asan, debug, gcc, no128, ubsan
        self.defs = tuple(defs)
        fl, self.hosted, self.x86, self.bits, self.big = TARGETS[target]

    @property
    def name(self):
        s = self.target
        if not self.gcc:
            s += "-clang"
        if self.no128:
            s += "-no128"
        if self.U is not None:
            s += "-U%d" % self.U
        if self.O is not None:
            s += "-O%d" % self.O
        if self.asan:
            s += "-asan"
        if self.debug:
            s += "-debug"
        if self.ubsan:
            s += "-ubsan"
        for d in self.defs:
            s += "-" + d.replace("T1HA", "").replace("_", "").replace("=", "")
        return s

    def __repr__(self):
        return self.name

    def key(self):
        return self.name

    def macro_flags(self):
        f = []
        if self.U is not None:
            f.append("-DT1HA_SYS_UNALIGNED_ACCESS=%d" % self.U)
        if self.O is not None:
            f.append("-DT1HA_USE_FAST_ONESHOT_READ=%d" % self.O)
        if not self.debug:
            f.append("-DNDEBUG")
        f += ["-D" + d for d in self.defs]
        return f

    def clang_flags(self, src=None):
        f = list(TARGETS[self.target][0])
        f += ["-std=c11", "-D_DEFAULT_SOURCE", "-w"]
        if self.target != "llp64":
            f += ["-fPIC", "-fvisibility=hidden", "-Dt1ha_EXPORTS"]
        if not self.hosted:
            f += ["-ffreestanding", "-isystem", os.path.join(HERE, "stubinc")]
        f += self.macro_flags()
        if self.gcc:
            f += ["-D__has_builtin(x)=0", "-fgnuc-version=10.0", "-Wno-builtin-macro-redefined"]
        if self.no128:
            f += ["-U__SIZEOF_INT128__"]
        if self.asan:
            f += ["-fsanitize=address"]
        if self.ubsan:
            f += ["-fsanitize=shift,signed-integer-overflow,integer-divide-by-zero,unreachable,"
                  "return,bool,enum,pointer-overflow,nonnull-attribute"
                  .replace(",pointer-overflow,nonnull-attribute", ""),
                  "-fsanitize-trap=all"]
        if src is not None:
            f += aes_flags(src, self.x86)
        return f

    def gcc_flags(self, src=None):
        """flags of a native gcc build of the same configuration (x64 / m32 only)"""
        f = ["-m32"] if self.target == "m32" else (["-mx32"] if self.target == "x32" else [])
        f += ["-std=c11", "-O3", "-D_DEFAULT_SOURCE", "-Dt1ha_EXPORTS", "-w", "-fPIC",
              "-fvisibility=hidden", "-ffunction-sections", "-fno-stack-protector"]
        f += self.macro_flags()
        if self.no128:
            f += ["-U__SIZEOF_INT128__"]
        if src is not None:
            f += aes_flags(src, self.x86)
        return f


def aes_flags(src, x86=True):
    """as /repo's build scripts do, by file name"""
    b = os.path.basename(src)
    if not x86 or "ia32aes" not in b:
        return []
    if "noavx" in b:
        return ["-mno-avx2", "-mno-avx", "-maes"]
    if "avx2" in b:
        return ["-mavx2", "-mavx", "-maes"]
    if "avx" in b:
        return ["-mno-avx2", "-mavx", "-maes"]
    return ["-maes"]


def sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "*.c")))


class CompileError(Exception):
    def __init__(self, cfg, src, text):
        Exception.__init__(self, "%s: %s: %s" % (cfg.name, os.path.basename(src), text[-2000:]))
        self.cfg, self.src, self.text = cfg, src, text


def compile_ir(cfg, src, extra=()):
    out = os.path.join(tmpdir(), "%s.%s.ll" % (cfg.name, os.path.basename(src)))
    cmd = [CLANG] + cfg.clang_flags(src) + ["-O1", "-Xclang", "-disable-llvm-passes", "-S",
                                            "-emit-llvm", "-gline-tables-only", "-I", REPO,
                                            "-o", out, src] + list(extra)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise CompileError(cfg, src, p.stdout)
    return out


def build(cfgs, only=None, extra_srcs=(), parse=True):
    """compile every source under every configuration.
    -> {cfg.name: Program or CompileError}"""
    jobs = []
    tmpdir()
    srcs = [s for s in sources() if only is None or only(os.path.basename(s))]
    srcs += list(extra_srcs)
    seen = {}
    for c in cfgs:
        if c.name in seen:
            continue
        seen[c.name] = c
        for s in srcs:
            jobs.append((c, s))

    def one(j):
        try:
            return compile_ir(*j)
        except CompileError as e:
            return e
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        outs = list(ex.map(one, jobs))
    res = {}
    mods = {}
    for (c, s), o in zip(jobs, outs):
        if isinstance(o, CompileError):
            if c.name not in res:
                res[c.name] = o
            continue
        mods.setdefault(c.name, []).append((o, s))
    for n, c in seen.items():
        if n in res:
            continue
        if not parse:
            res[n] = None
            for o, s in mods.get(n, []):
                os.unlink(o)
            continue
        ms = []
        for o, s in mods.get(n, []):
            with open(o) as f:
                ms.append(ir.Module(f.read(), os.path.basename(s)))
            os.unlink(o)
        p = sx.Program(ms)
        p.cfg = c
        res[n] = p
    return res
