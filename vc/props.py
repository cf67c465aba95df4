"""Which obligations decide which property."""
import config
import funcs
import tasks
import wiring
from tasks import hash_tasks, stream_tasks, wrapper_tasks, dispatch_tasks, verdict_tasks, link_tasks

VALUE = {"post", "wire", "term", "lost", "reach", "build"}
T2 = ["t1ha2_atonce", "t1ha2_atonce128"]
T1 = ["t1ha1_le", "t1ha1_be"]
T0 = ["t1ha0_32le", "t1ha0_32be"]
AESF = ["t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"]
ALL = [c for c in config.CONFIGS if not config.CONFIGS[c].trim and not config.CONFIGS[c].ub]
UB = [c for c in config.CONFIGS if config.CONFIGS[c].ub]
TRIM = [c for c in config.CONFIGS if config.CONFIGS[c].trim]
IA32 = [c for c in ALL if config.CONFIGS[c].ia32]
NAT = ["x86_64", "i386"]
SCALAR = T2 + T1 + T0


class Prop(object):
    def __init__(self, pid, kinds, quick, thorough=None, replay=(), exact=False):
        self.id, self.kinds = pid, set(kinds) | {"reach", "lost"}
        self.quick, self.thorough = quick, thorough or quick
        self.replay = replay


PROPS = {}


def P(*a, **k):
    p = Prop(*a, **k)
    PROPS[p.id] = p


VAR = NAT + ["x86_64-unaligned0", "i386-unaligned1"]
STREAM = ["t1ha2_init", "t1ha2_update", "t1ha2_final"]


def vec(*behs):
    return [("vectors", "-", tuple(behs))]


LEMMA = [("lemma", "-", "Absorb", "split_invariance")]
SCHOOLBOOK = [("lemma", "-", "Schoolbook", "schoolbook")]       # wherever products occur

P("C01", VALUE, lambda: hash_tasks(VAR, T2) + vec(*T2), lambda: hash_tasks(ALL, T2) + vec(*T2))
P("C02", VALUE, lambda: stream_tasks(NAT + ["x86_64-unaligned0", "s390x", "mips"]) + LEMMA + vec("stream", "stream128"),
  lambda: stream_tasks(ALL) + LEMMA + vec("stream", "stream128"))
P("C03", VALUE, lambda: hash_tasks(VAR, T1) + vec(*T1), lambda: hash_tasks(ALL, T1) + vec(*T1))
P("C04", VALUE, lambda: hash_tasks(VAR, T0) + vec(*T0), lambda: hash_tasks(ALL, T0) + vec(*T0))
P("C05", VALUE, lambda: hash_tasks(NAT, AESF) + vec(*AESF), lambda: hash_tasks(IA32, AESF) + vec(*AESF))

# every supported way of building the portable functions
UPD = ["s390x", "mips", "mips-unaligned2", "powerpc64-unaligned2", "riscv32", "aarch64", "win64"]
P("C06", VALUE, lambda: hash_tasks(ALL, SCALAR) + stream_tasks(ALL, ("init", "final")) + stream_tasks(UPD, ("update",)) +
  hash_tasks(["win64", "i386-clang"], AESF[:2]),
  lambda: hash_tasks(ALL, SCALAR + AESF) + stream_tasks(ALL))

# what may be read
EXACT = [c for c in ALL if not config.CONFIGS[c].oneshot]
PAGE = ["x86_64", "i386", "x86_64-unaligned0", "x86_64-unaligned1", "i386-unaligned0", "i386-unaligned1", "s390x", "mips", "mips-unaligned2",
        "powerpc64-unaligned2", "aarch64", "armv7"]
P("C07", {"mem"}, lambda: hash_tasks(EXACT + PAGE, SCALAR) + hash_tasks(["x86_64", "i386-oneshot0"], AESF) +
  stream_tasks(["x86_64", "i386-oneshot0", "x86_64-unaligned0-oneshot0", "s390x-unaligned2-oneshot0"]),
  lambda: hash_tasks(ALL, SCALAR + AESF) + stream_tasks(ALL))

# what may be written or depended on
FR = NAT + ["i386-unaligned0", "s390x"]
P("C08", {"frame"}, lambda: hash_tasks(FR, SCALAR) + hash_tasks(NAT, AESF) + stream_tasks(NAT) + verdict_tasks(NAT) + wrapper_tasks(NAT),
  lambda: hash_tasks(ALL, SCALAR + AESF) + stream_tasks(ALL) + verdict_tasks(ALL) + wrapper_tasks(ALL))

P("C09", VALUE, lambda: dispatch_tasks(ALL + TRIM))
P("C10", VALUE | {"mem"}, lambda: verdict_tasks(ALL + TRIM))
P("C11", VALUE, lambda: wrapper_tasks(ALL + TRIM) + link_tasks(NAT) + vec(*wiring.TABLES))

LONG = ["x86_64", "win64"]
P("C12", VALUE | {"term"}, lambda: hash_tasks(LONG + ["aarch64", "s390x", "i386"], SCALAR, True) + hash_tasks(LONG, AESF, True) +
  stream_tasks(["win64", "i386"], full=True) + stream_tasks(["x86_64", "mips"], ("init", "final")),
  lambda: hash_tasks(ALL, SCALAR + AESF, True) + stream_tasks(ALL, full=True))

BASES = ["x86_64", "i386", "aarch64", "s390x", "mips"]
P("C13", VALUE, lambda: link_tasks(BASES + TRIM) + wrapper_tasks(TRIM) + dispatch_tasks(BASES + TRIM) + verdict_tasks(TRIM) +
  hash_tasks(BASES + TRIM, SCALAR) + hash_tasks(["x86_64", "i386"] + TRIM, AESF[:2]) + stream_tasks(["x86_64"] + [c for c in TRIM if c.startswith("x86_64")]),
  lambda: link_tasks(ALL + TRIM) + wrapper_tasks(TRIM) + dispatch_tasks(ALL + TRIM) + verdict_tasks(TRIM) +
  hash_tasks(BASES + TRIM, SCALAR + AESF) + stream_tasks(BASES + TRIM))

P("C14", {"ub", "align", "assert"}, lambda: hash_tasks(UB + ["armv5", "riscv64"], SCALAR) + hash_tasks(["x86_64-ub"], AESF) + hash_tasks(["i386-ub"], AESF[:2]) +
  stream_tasks(["x86_64-ub", "i386-unaligned0-ub", "x86_64-unaligned0-oneshot0-ub", "s390x-ub"]) + stream_tasks(UB, ("init", "final")) +
  verdict_tasks(["x86_64-ub", "i386-ub"]) + wrapper_tasks(["x86_64-ub", "i386-ub"]) + dispatch_tasks(["x86_64-ub", "i386-ub"]),
  lambda: hash_tasks(UB + ALL, SCALAR + AESF) + stream_tasks(UB + ALL) + verdict_tasks(UB) + wrapper_tasks(UB) + dispatch_tasks(UB))

TRUSTED = [
    "clang 18 front end (C to LLVM IR at -O0) as the meaning of the C source; the shipped compiler (gcc) is assumed to agree with it",
    "the verification-condition generator /verif/vc (IR reader, executor, term normalizer)",
    "z3 5.3 and cvc5 1.1 where the evidence names them as back end",
    "the specification functions in vc/spec.py (cross-checked against the published reference vectors on every run)",
]
ASSUMPTIONS = [
    "no object lies in the first or the last 4096 bytes of the address space or wraps around it",
    "no key or chunk is longer than PTRDIFF_MAX, the size limit of a C object (C12 admits every length on 32-bit targets)",
    "pointers declared __restrict do not overlap; the input is not modified during a call",
    "machine arithmetic is exact (bit-vectors); nothing is treated as mathematical integers except sums shown not to wrap",
    "strict-aliasing and misaligned-load rules: the code's own casts are taken with the meaning clang gives them at -O0; on 32-bit targets 64-bit integers need 4-byte alignment",
    "the C library's memcpy/memset/abort behave as specified",
    "MSVC-, Elbrus- and cross-compiler-specific preprocessor branches are not compiled, hence not verified",
    "aesenc/aesdec are uninterpreted functions of the state, xored with the round key (as the instructions define)",
]
