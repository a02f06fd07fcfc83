"""Replaying counterexamples (and sample traces) on the real code."""
import os
import shutil
import subprocess
import time
from . import build, core

CDIR = os.path.join(build.HERE, "c")
AES_FNS = ("t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2")


def native(cfg):
    return cfg.target in ("x64", "m32")


def segments(mem, arr="M", w=64):
    """{(arr, off): byte} -> [(offset, hex)] with signed offsets"""
    offs = {}
    for (a, o), v in mem.items():
        if a == arr:
            offs[o - (1 << w) if o >> (w - 1) else o] = v & 255
    out = []
    cur = None
    for o in sorted(offs):
        if cur is not None and o == cur[0] + len(cur[1]) and len(cur[1]) < 16000:
            cur[1].append(offs[o])
        else:
            cur = (o, [offs[o]])
            out.append(cur)
    return [(o, bytes(b).hex()) for o, b in out]


def set_lines(mem, n, buf=0, arr="M", w=64, span=1 << 20):
    return ["set %d %d %s" % (buf, o, h) for o, h in segments(mem, arr, w)
            if -span < o < n + span]


def hash_lines(fn, env, n, w, addr="D", seed="seed", guard=False, fill=0x5eed):
    """a call as the assignment says"""
    e = env
    d = e.syms.get(addr)
    low = (d or 0) & 4095
    pages = 0 if guard else 1
    return ["buf 0 %d %d %d %d %x" % (n, low, pages, pages, fill)] + \
        set_lines(e.mem, n, w=w) + \
        ["hash %s 0 %d %x" % (fn, n, e.syms.get(seed, 0))]


def cc_lines(cfg, mode):
    """shell lines that build the driver against /repo's sources"""
    clang = not cfg.gcc or mode in ("msan",)
    cc = "clang" if clang else "gcc"
    m = ["-m32"] if cfg.target == "m32" else []
    base = ["-std=gnu11", "-D_DEFAULT_SOURCE", "-w", "-g", "-fno-omit-frame-pointer"]
    lib = ["-fPIC", "-fvisibility=hidden", "-Dt1ha_EXPORTS"] + cfg.macro_flags()
    if cfg.no128:
        lib.append("-U__SIZEOF_INT128__")
    drv = []
    link = []
    if mode == "trace":
        lib += ["-O1", "-fsanitize=kernel-address", "--param",
                "asan-instrumentation-with-call-threshold=0", "--param", "asan-stack=0",
                "--param", "asan-globals=0", "-U__SANITIZE_ADDRESS__", "-Dmemcpy=tr_memcpy",
                "-U_FORTIFY_SOURCE", "-fno-builtin"]
        drv += ["-DTRACE"]
    elif mode == "O0":
        lib += ["-O0"]
    elif mode == "O2":
        lib += ["-O2"]
    elif mode == "ubsan":
        lib += ["-O1", "-fsanitize=undefined", "-fno-sanitize=alignment,null",
                "-fsanitize-undefined-trap-on-error"]
    elif mode == "msan":
        lib += ["-O1", "-fsanitize=memory"]
        drv += ["-fsanitize=memory"]
        link += ["-fsanitize=memory"]
    else:
        lib += ["-O3", "-fno-stack-protector", "-ffunction-sections"]
    if cfg.asan:
        lib.append("-D__SANITIZE_ADDRESS__=1")
    fl = lambda xs: " ".join("'%s'" % x if any(c in x for c in "() ;") else x for x in xs)
    out = []
    aes = cfg.x86 and not any(d.startswith("T1HA0_AESNI_AVAILABLE=0") for d in cfg.defs)
    out.append("for f in \"$R\"/src/*.c; do b=$(basename \"$f\" .c); x=''")
    out.append("  case $b in *ia32aes*noavx) x='-mno-avx2 -mno-avx -maes';; "
               "*ia32aes*avx2) x='-mavx2 -mavx -maes';; *ia32aes*avx) x='-mno-avx2 -mavx -maes';; "
               "*ia32aes*) x='-maes';; esac")
    out.append("  %s %s %s $x -I\"$R\" -c \"$f\" -o \"$W/$b.o\" &" %
               (cc, fl(m + base), fl(lib)))
    out.append("done; wait; for f in \"$R\"/src/*.c; do "
               "[ -f \"$W/$(basename \"$f\" .c).o\" ] || exit 2; done")
    out.append("%s %s -O1 %s %s -I\"$R\" -I\"$H\" \"$H/driver.c\" \"$W\"/*.o %s -o \"$W/drv\" "
               "|| exit 2" % (cc, fl(m + base), fl(drv), "" if aes else "-DNO_AES", fl(link)))
    return out


HEAD = """#!/bin/sh
# %s
# Builds the real sources and replays the counterexample.  Exit 1: it shows.
R=${T1HA_REPO:-/repo}
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/t1ha-replay-XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
"""


def script(cfg, modes, text):
    s = HEAD % text.replace("\n", " ")
    s += "rc=0\n"
    for m in modes:
        s += "# --- build mode %s, configuration %s\n" % (m, cfg.name)
        s += "(\n" + "\n".join(cc_lines(cfg, m)) + "\n\"$W/drv\" \"$H/scenario.txt\"\n)\nrc=$?\n"
        s += "[ $rc = 1 ] && { echo reproduced in mode %s; exit 1; }\n" % m
        s += "rm -f \"$W\"/*\n"
    s += "exit $rc\n"
    return s


def run(ck, c):
    """-> (reproduced, path of the replay script, log)"""
    k = len(ck.confirmed) + len(ck.unconfirmed)
    d = os.path.join(core.EVID, "replays", "%s-%d" % (ck.pid, k))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    r = c.replay
    text = "%s: %s in %s, %s: %s" % (ck.pid, c.kind, c.fn, c.cfg, c.text)
    path = os.path.join(d, "run.sh")
    if r is None:
        with open(path, "w") as f:
            f.write("#!/bin/sh\n# %s\necho 'no replay available'; exit 2\n" % text)
        return c.confirmed, path, ""
    if "lines" in r:
        with open(os.path.join(d, "scenario.txt"), "w") as f:
            f.write("# %s\n" % text.replace("\n", " ") + "\n".join(r["lines"]) + "\n")
        for n in ("driver.c", "ref.h"):
            shutil.copy(os.path.join(CDIR, n), d)
        body = script(r["cfg"], r.get("modes", ["O3"]), text)
    elif "interp" in r:
        import json
        with open(os.path.join(d, "input.json"), "w") as f:
            json.dump(r["interp"], f, indent=1)
        body = HEAD % text.replace("\n", " ") + \
            "cd %s && exec python3-vt -m engine.interp \"$H/input.json\"\n" % core.ROOT
    else:
        for n, s in r["files"].items():
            if s is None:
                shutil.copy(os.path.join(CDIR, n), d)
            else:
                with open(os.path.join(d, n), "w") as f:
                    f.write(s)
        body = HEAD % text.replace("\n", " ") + r["script"]
    with open(path, "w") as f:
        f.write(body)
    os.chmod(path, 0o755)
    rc, log = sh(["sh", path], 200)
    return rc == 1, path, log


def outcome(r):
    """exit status and log of a replay given as files and a script"""
    import tempfile
    d = tempfile.mkdtemp(prefix="run-", dir=build.tmpdir())
    for n, s in r["files"].items():
        if s is None:
            shutil.copy(os.path.join(CDIR, n), d)
        else:
            with open(os.path.join(d, n), "w") as f:
                f.write(s)
    path = os.path.join(d, "run.sh")
    with open(path, "w") as f:
        f.write(HEAD % "trace" + r["script"])
    rc, log = sh(["sh", path], 200)
    shutil.rmtree(d, ignore_errors=True)
    return rc, log


def sh(cmd, timeout, env=None):
    e = dict(os.environ)
    e["T1HA_REPO"] = build.REPO
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           env=e, errors="replace", start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, str(ex)


_drv = {}


def driver(cfg, mode="O3"):
    """native driver for a configuration, built once per run"""
    key = (cfg.name, mode)
    if key in _drv:
        return _drv[key]
    d = os.path.join(build.tmpdir(), "drv-%s-%s" % key)
    os.makedirs(d, exist_ok=True)
    s = "R=%s\nH=%s\nW=%s\n" % (build.REPO, CDIR, d) + "\n".join(cc_lines(cfg, mode)) + "\n"
    rc, log = sh(["sh", "-c", s], 200)
    _drv[key] = os.path.join(d, "drv") if rc == 0 else None
    return _drv[key]


def validate(traces, deadline, max_cfgs=5):
    """traces: (cfg, lines, [expected 'ret' lines]) -> (agreeing, [mismatches])"""
    by = {}
    other = {}
    for t in traces:
        d = by if native(t[0]) else other
        d.setdefault(t[0].name, []).append(t)
    # a few configurations per run
    names = list(by)[:max_cfgs]
    by = {n: by[n] for n in names}
    import concurrent.futures
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda n: driver(by[n][0][0]), names))
    ok, bad = 0, []
    # what cannot run here runs on the concrete IR machine
    from . import interp
    for name, ts in other.items():
        for cfg, lines, exp in ts[:12]:
            if time.time() > deadline or name not in core.PROGS:
                break
            try:
                _, got = interp.runner(core.PROGS[name], ["noref"] + list(lines))
            except Exception as e:
                bad.append("%s: interpreter: %r" % (name, e))
                break
            if got == exp:
                ok += 1
            else:
                bad.append("%s: interpreter %s, encoding %s" % (name, got, exp))
    for name, ts in by.items():
        if time.time() > deadline:
            break
        cfg = ts[0][0]
        if not native(cfg):
            continue
        exe = driver(cfg)
        if exe is None:
            bad.append("driver does not build for " + name)
            continue
        for i in range(0, len(ts), 20):
            chunk = ts[i:i + 20]
            f = os.path.join(build.tmpdir(), "trace.txt")
            exp = []
            with open(f, "w") as g:
                g.write("noref\n")
                for _, lines, want in chunk:
                    g.write("\n".join(lines) + "\n")
                    exp += want
            rc, log = sh([exe, f], 100)
            got = [x.split(None, 1)[1] for x in log.splitlines() if x.startswith("ret ")]
            if got == exp and rc == 0:
                ok += len(chunk)
            else:
                for a, b in zip(got, exp):
                    if a == b:
                        ok += 1
                    else:
                        bad.append("%s: native %s, encoding %s" % (name, a, b))
                if rc not in (0, 1):
                    bad.append("%s: driver ends with %d: %s" % (name, rc, log[-200:]))
    return ok, bad
