"""Device side of the CUDA sources of a tree: compiled for this machine, instrumented, one shared object with an entry per kernel."""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

from recipes import redirect

repo, verif, build = sys.argv[1:4]
sources = sys.argv[4:]
FLAGS = ["clang++", "-x", "c++", "-std=c++14", "-O1", "-g0", "-w", "-fPIC", "-fsanitize=thread", "-fno-builtin", "-D__CUDA_ARCH__=600", "-D__CUDACC__", "-D__NVCC__",
         "-include", os.path.join(verif, "harness/cuda/cuda_runtime.h"), "-I" + os.path.join(verif, "harness/cuda"), "-I" + os.path.join(repo, "include"), "-I" + os.path.join(repo, "lib")]


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        sys.exit(1)
    return r.stdout


def one(src):
    obj = os.path.join(build, "dev_" + os.path.basename(src) + ".o")
    run(FLAGS + ["-c", src, "-o", obj])
    table = run(["objdump", "-t", obj])
    shared = bool(re.search(r"\scushared\s", table))
    names = re.findall(r"\scukernels\s+\S+\s+(?:\.hidden\s+)?(\S+)$", table, re.M)
    names = sorted({n.split("(")[0].split()[-1] for n in run(["c++filt"] + names).splitlines() if "(" in n}) if names else []
    if names:
        tu = os.path.join(build, "dev_" + os.path.basename(src) + ".cpp")
        with open(tu, "w") as f:
            f.write('#include "%s"\n#include "%s"\n' % (src, os.path.join(verif, "harness/cuda/kernel_calls.hpp")))
            for n in names:
                f.write("FIBCU_KERNEL(%s)\n" % n)
            if shared:
                f.write('extern "C" __attribute__((visibility("default"))) const int fibcu_has_shared = 1;\n')
        run(FLAGS + ["-c", tu, "-o", obj])
    subprocess.run(redirect(obj)[:-1] + [obj], check=True)
    return obj


with ThreadPoolExecutor(8) as pool:
    objects = list(pool.map(one, sources))
run(["clang++", "-shared", "-Wl,-Bsymbolic"] + objects + ["-nodefaultlibs", "-o", os.path.join(build, "device.so")])
