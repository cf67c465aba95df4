"""Build configurations: how /repo's sources are turned into IR on every run."""
import os
import subprocess
import llvmir

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VPHB_REPO", "/repo")
STUBS = os.path.join(HERE, "stubs")

BASE = ["-std=c11", "-D_DEFAULT_SOURCE", "-O0", "-Xclang", "-disable-llvm-passes", "-Xclang",
        "-disable-O0-optnone", "-ffreestanding", "-fno-stack-protector", "-nostdlibinc",
        "-isystem", STUBS, "-S", "-emit-llvm", "-w"]

# gcc as the reference compiler: the builtins it has, and its version
GCC = ["-fgnuc-version=13.3.0", "-include", os.path.join(STUBS, "gcc_like.h")]

AES = {"t1ha0_ia32aes_noavx": ["-mno-avx2", "-mno-avx", "-maes"],
       "t1ha0_ia32aes_avx": ["-mno-avx2", "-mavx", "-maes"],
       "t1ha0_ia32aes_avx2": ["-mavx2", "-mavx", "-maes"]}


class Config(object):
    def __init__(self, name, target, flags=(), W=64, big=False, ia32=False, unaligned=0, oneshot=1,
                 gcc=True, replay=None, debug=False, disabled=(), aesni=None, select=None, trim=False, ub=False):
        self.name, self.target, self.flags = name, target, list(flags)
        self.W, self.big, self.ia32 = W, big, ia32
        self.unaligned, self.oneshot, self.gcc, self.replay = unaligned, oneshot, gcc, replay
        self.align64 = 8 if W == 64 else 4
        self.debug = debug
        # parts switched off, and whether AES variants and run-time selection are built
        self.disabled, self.trim, self.ub = tuple(disabled), trim, ub
        self.aesni = (ia32 if aesni is None else aesni) and 0 not in self.disabled
        self.select = self.aesni if select is None else select
        # natural alignment matters for *_aligned accesses, except where x86 takes misaligned loads
        self.strict_align = unaligned == 0 or (unaligned == 1 and not ia32)

    def units(self):
        u = ["t1ha0", "t1ha1", "t1ha2"]
        if self.ia32:
            u += list(AES)
        return u

    def has(self, fn):
        """the hash function is part of this build"""
        if "aes" in fn:
            return self.aesni
        return int(fn[4]) not in self.disabled


class CompileError(Exception):
    pass


def compile_text(cfg, unit, extra=(), src=None):
    f = src or os.path.join(REPO, "src", unit + ".c")
    cmd = ["clang-18", "--target=" + cfg.target] + BASE
    if not os.path.exists("/usr/bin/clang-18"):
        cmd[0] = "clang"
    if not cfg.debug:
        cmd.append("-DNDEBUG")
    if cfg.gcc is True:
        cmd += GCC
    elif cfg.gcc:
        cmd += ["-fgnuc-version=" + cfg.gcc, "-include", os.path.join(STUBS, "gcc_old.h")]
    cmd += cfg.flags + AES.get(unit, []) + list(extra) + ["-I", REPO, "-I", os.path.join(REPO, "src"), "-o", "-", f]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise CompileError("%s [%s]: %s" % (unit, cfg.name, r.stderr.decode(errors="replace")[:1500]))
    return r.stdout


def compile_ir(cfg, unit, extra=(), src=None):
    return llvmir.parse(compile_text(cfg, unit, extra, src))


def C(*a, **k):
    c = Config(*a, **k)
    CONFIGS[c.name] = c
    return c


CONFIGS = {}
_u = "-DT1HA_SYS_UNALIGNED_ACCESS=%d"
_o0 = "-DT1HA_USE_FAST_ONESHOT_READ=0"
# what /repo builds on this machine (native and -m32), then the supported variations
C("x86_64", "x86_64-linux-gnu", ia32=True, unaligned=2, replay=[])
C("i386", "i386-linux-gnu", ["-msse2"], W=32, ia32=True, unaligned=2, replay=["-m32"])
C("x86_64-oneshot0", "x86_64-linux-gnu", [_o0], ia32=True, unaligned=2, oneshot=0, replay=[_o0])
C("i386-oneshot0", "i386-linux-gnu", ["-msse2", _o0], W=32, ia32=True, unaligned=2, oneshot=0, replay=["-m32", _o0])
C("x86_64-unaligned0", "x86_64-linux-gnu", [_u % 0], ia32=True, unaligned=0, replay=[_u % 0])
C("x86_64-unaligned1", "x86_64-linux-gnu", [_u % 1], ia32=True, unaligned=1, replay=[_u % 1])
C("x86_64-unaligned0-oneshot0", "x86_64-linux-gnu", [_u % 0, _o0], ia32=True, unaligned=0, oneshot=0, replay=[_u % 0, _o0])
C("x86_64-unaligned1-oneshot0", "x86_64-linux-gnu", [_u % 1, _o0], ia32=True, unaligned=1, oneshot=0, replay=[_u % 1, _o0])
C("i386-unaligned0", "i386-linux-gnu", ["-msse2", _u % 0], W=32, ia32=True, unaligned=0, replay=["-m32", _u % 0])
C("i386-unaligned1", "i386-linux-gnu", ["-msse2", _u % 1], W=32, ia32=True, unaligned=1, replay=["-m32", _u % 1])
C("i386-unaligned0-oneshot0", "i386-linux-gnu", ["-msse2", _u % 0, _o0], W=32, ia32=True, unaligned=0, oneshot=0, replay=["-m32", _u % 0, _o0])
C("i386-unaligned1-oneshot0", "i386-linux-gnu", ["-msse2", _u % 1, _o0], W=32, ia32=True, unaligned=1, oneshot=0, replay=["-m32", _u % 1, _o0])
C("i386-clang", "i386-linux-gnu", ["-msse2"], W=32, ia32=True, unaligned=2, gcc=False)
C("win64", "x86_64-w64-windows-gnu", ia32=True, unaligned=2)
C("aarch64", "aarch64-linux-gnu", unaligned=2)
C("aarch64-strict", "aarch64-linux-gnu", ["-mstrict-align"], unaligned=0)
C("armv7", "armv7-linux-gnueabihf", W=32, unaligned=2)
C("armv5", "armv5-linux-gnueabi", W=32, unaligned=0)
C("armeb", "armebv7-linux-gnueabihf", W=32, big=True, unaligned=2)
C("riscv32", "riscv32-linux-gnu", W=32, unaligned=0)
C("riscv64", "riscv64-linux-gnu", unaligned=0)
C("powerpc64", "powerpc64-linux-gnu", big=True, unaligned=0)
C("powerpc64-unaligned2", "powerpc64-linux-gnu", [_u % 2], big=True, unaligned=2)
C("s390x", "s390x-linux-gnu", big=True, unaligned=0)
C("s390x-unaligned1", "s390x-linux-gnu", [_u % 1], big=True, unaligned=1)
C("s390x-oneshot0", "s390x-linux-gnu", [_o0], big=True, unaligned=0, oneshot=0)
C("s390x-unaligned2-oneshot0", "s390x-linux-gnu", [_u % 2, _o0], big=True, unaligned=2, oneshot=0)
C("mips", "mips-linux-gnu", W=32, big=True, unaligned=0)
C("mips-unaligned1", "mips-linux-gnu", [_u % 1], W=32, big=True, unaligned=1)
C("mips-unaligned2", "mips-linux-gnu", [_u % 2], W=32, big=True, unaligned=2)
C("mips-unaligned2-oneshot0", "mips-linux-gnu", [_u % 2, _o0], W=32, big=True, unaligned=2, oneshot=0)
# clang's own branches, and those of older gcc: the generic byte swaps, carries and aligned loads
C("x86_64-clang", "x86_64-linux-gnu", ia32=True, unaligned=2, gcc=False)
C("armv5-clang", "armv5-linux-gnueabi", W=32, unaligned=0, gcc=False)
C("mips-clang", "mips-linux-gnu", W=32, big=True, unaligned=0, gcc=False)
C("i386-gcc44", "i386-linux-gnu", ["-msse2"], W=32, ia32=True, unaligned=2, gcc="4.4.7")
C("x86_64-unaligned0-gcc44", "x86_64-linux-gnu", [_u % 0], ia32=True, unaligned=0, gcc="4.4.7")
C("s390x-gcc44", "s390x-linux-gnu", big=True, unaligned=0, gcc="4.4.7")
C("s390x-gcc42", "s390x-linux-gnu", big=True, unaligned=0, gcc="4.2.1")
C("armv5-gcc42", "armv5-linux-gnueabi", W=32, unaligned=0, gcc="4.2.1")
C("aarch64-gcc42", "aarch64-linux-gnu", unaligned=2, gcc="4.2.1")
C("mips-unaligned1-gcc42", "mips-linux-gnu", [_u % 1], W=32, big=True, unaligned=1, gcc="4.2.1")
C("x86_64-asan", "x86_64-linux-gnu", ["-D__SANITIZE_ADDRESS__=1"], ia32=True, unaligned=2)
C("s390x-unaligned2-asan", "s390x-linux-gnu", [_u % 2, "-D__SANITIZE_ADDRESS__=1"], big=True, unaligned=2)
C("x86_64-debug", "x86_64-linux-gnu", ia32=True, unaligned=2, debug=True)
C("x86_64-unaligned0-debug", "x86_64-linux-gnu", [_u % 0], ia32=True, unaligned=0, debug=True)
C("i386-debug", "i386-linux-gnu", ["-msse2"], W=32, ia32=True, unaligned=2, debug=True)

# undefined behaviour as the C language defines it: clang's own checks become obligations
_ub = ["-fsanitize=undefined", "-fno-sanitize=function,vptr", "-fsanitize-trap=undefined"]
_na = ["-fno-sanitize=alignment"]
C("x86_64-ub", "x86_64-linux-gnu", _ub + _na, ia32=True, unaligned=2, debug=True, replay=[], ub=True)
C("i386-ub", "i386-linux-gnu", ["-msse2"] + _ub + _na, W=32, ia32=True, unaligned=2, debug=True, replay=["-m32"], ub=True)
C("x86_64-unaligned0-ub", "x86_64-linux-gnu", [_u % 0] + _ub, ia32=True, unaligned=0, debug=True, replay=[_u % 0], ub=True)
C("x86_64-unaligned1-ub", "x86_64-linux-gnu", [_u % 1] + _ub + _na, ia32=True, unaligned=1, debug=True, replay=[_u % 1], ub=True)
C("x86_64-unaligned0-oneshot0-ub", "x86_64-linux-gnu", [_u % 0, _o0] + _ub, ia32=True, unaligned=0, oneshot=0, debug=True, replay=[_u % 0, _o0], ub=True)
C("x86_64-oneshot0-ub", "x86_64-linux-gnu", [_o0] + _ub + _na, ia32=True, unaligned=2, oneshot=0, debug=True, replay=[_o0], ub=True)
C("i386-unaligned0-ub", "i386-linux-gnu", ["-msse2", _u % 0] + _ub, W=32, ia32=True, unaligned=0, debug=True, replay=["-m32", _u % 0], ub=True)
C("armv5-ub", "armv5-linux-gnueabi", _ub + _na, W=32, unaligned=0, debug=True, ub=True)
C("s390x-ub", "s390x-linux-gnu", _ub, big=True, unaligned=0, debug=True, ub=True)
C("mips-ub", "mips-linux-gnu", _ub + _na, W=32, big=True, unaligned=0, debug=True, ub=True)
C("s390x-unaligned2-oneshot0-ub", "s390x-linux-gnu", [_u % 2, _o0] + _ub + _na, big=True, unaligned=2, oneshot=0, debug=True, ub=True)
C("s390x-oneshot0-ub", "s390x-linux-gnu", [_o0] + _ub, big=True, unaligned=0, oneshot=0, debug=True, ub=True)
C("mips-oneshot0-ub", "mips-linux-gnu", [_o0] + _ub + _na, W=32, big=True, unaligned=0, oneshot=0, debug=True, ub=True)
C("i386-oneshot0-ub", "i386-linux-gnu", ["-msse2", _o0] + _ub + _na, W=32, ia32=True, unaligned=2, oneshot=0, debug=True, replay=["-m32", _o0], ub=True)
C("mips-unaligned1-ub", "mips-linux-gnu", [_u % 1] + _ub + _na, W=32, big=True, unaligned=1, debug=True, ub=True)
C("s390x-gcc42-ub", "s390x-linux-gnu", _ub + _na, big=True, unaligned=0, debug=True, gcc="4.2.1", ub=True)

# parts of the library switched off
_N = "-DT1HA%d_DISABLED=1"
for _b, _kw in (("x86_64", dict(target="x86_64-linux-gnu", ia32=True, unaligned=2)),
                ("i386", dict(target="i386-linux-gnu", flags=["-msse2"], W=32, ia32=True, unaligned=2)),
                ("aarch64", dict(target="aarch64-linux-gnu", unaligned=2)),
                ("s390x", dict(target="s390x-linux-gnu", big=True, unaligned=0)),
                ("mips", dict(target="mips-linux-gnu", W=32, big=True, unaligned=0))):
    _rp = {"x86_64": [], "i386": ["-m32"]}.get(_b)

    def _t(name, flags, **k):
        kw = dict(_kw)
        kw["flags"] = list(kw.get("flags", [])) + flags
        kw.update(k)
        C(_b + "-" + name, trim=True, replay=None if _rp is None else _rp + flags, **kw)
    for _d in ((0,), (1,), (2,), (0, 1), (0, 2), (1, 2), (0, 1, 2)):
        _t("no" + "".join(map(str, _d)), [_N % x for x in _d], disabled=_d)
    if _b in ("x86_64", "i386"):
        _t("aes0", ["-DT1HA0_AESNI_AVAILABLE=0"], aesni=False)
        _t("select0", ["-DT1HA0_RUNTIME_SELECT=0"], select=False)
        _t("select0-no1", ["-DT1HA0_RUNTIME_SELECT=0", _N % 1], select=False, disabled=(1,))
        _t("select0-no12", ["-DT1HA0_RUNTIME_SELECT=0", _N % 1, _N % 2], select=False, disabled=(1, 2))
        _t("aes0-no1", ["-DT1HA0_AESNI_AVAILABLE=0", _N % 1], aesni=False, disabled=(1,))
        _t("aes0-no12", ["-DT1HA0_AESNI_AVAILABLE=0", _N % 1, _N % 2], aesni=False, disabled=(1, 2))
        _t("aes0-no2", ["-DT1HA0_AESNI_AVAILABLE=0", _N % 2], aesni=False, disabled=(2,))
        _t("aes0-select1-no1", ["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1", _N % 1], aesni=False, select=True, disabled=(1,))
        _t("aes0-select1-no12", ["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1", _N % 1, _N % 2], aesni=False, select=True, disabled=(1, 2))
        _t("select0-no2", ["-DT1HA0_RUNTIME_SELECT=0", _N % 2], select=False, disabled=(2,))
        _t("indirect0-no12", ["-DT1HA_USE_INDIRECT_FUNCTIONS=0", _N % 1, _N % 2], disabled=(1, 2))
        _t("indirect0-no2", ["-DT1HA_USE_INDIRECT_FUNCTIONS=0", _N % 2], disabled=(2,))
        _t("indirect1-no1", ["-DT1HA_USE_INDIRECT_FUNCTIONS=1", _N % 1], disabled=(1,))
        _t("indirect0", ["-DT1HA_USE_INDIRECT_FUNCTIONS=0"])
        _t("indirect1", ["-DT1HA_USE_INDIRECT_FUNCTIONS=1"])
        _t("indirect0-no1", ["-DT1HA_USE_INDIRECT_FUNCTIONS=0", _N % 1], disabled=(1,))
        _t("aes0-select1", ["-DT1HA0_AESNI_AVAILABLE=0", "-DT1HA0_RUNTIME_SELECT=1"], aesni=False, select=True)
    else:
        _t("select1", ["-DT1HA0_RUNTIME_SELECT=1"], select=True)
        _t("select1-no2", ["-DT1HA0_RUNTIME_SELECT=1", _N % 2], select=True, disabled=(2,))
        _t("select1-indirect1", ["-DT1HA0_RUNTIME_SELECT=1", "-DT1HA_USE_INDIRECT_FUNCTIONS=1"], select=True)
        _t("select1-no1", ["-DT1HA0_RUNTIME_SELECT=1", _N % 1], select=True, disabled=(1,))
        _t("select1-no12", ["-DT1HA0_RUNTIME_SELECT=1", _N % 1, _N % 2], select=True, disabled=(1, 2))
    _t("define", ["-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1"], select=False)
    _t("define-no1", ["-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1", _N % 1], select=False, disabled=(1,))
    _t("define-no2", ["-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1", _N % 2], select=False, disabled=(2,))
    _t("define-no12", ["-DT1HA0_RUNTIME_SELECT=0", "-DT1HA0_USE_DEFINE=1", _N % 1, _N % 2], select=False, disabled=(1, 2))
