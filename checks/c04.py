"""C04: the wasm simd128 hasher equals the portable hasher; its checkpoints are interchangeable."""
import c03
from backend import *


def main(k):
    q = k.tier == "quick"
    use_cpu()
    ms = [wasm(), wasm("dev"), machine(build.WASM, "release", False, "+simd128")]
    x = machine()
    prepare(ms + [x], [ms[0], ms[1], x])
    c03.common(k, ms, "w", [(x, "p"), (x, "s"), (x, "a")], q)
    k.explanation = ("The wasm32 LLVM IR of WasmHash and PortableHash (simd128 on) is executed symbolically; every output word "
                     "and every checkpoint byte of WasmHash is proved equal to PortableHash's for symbolic key and bytes, and "
                     "states restored across backends and targets finish identically.")
    k.assumptions = ["simd128 intrinsics have the semantics of the LLVM operations rustc lowers them to (validated under node)"]
