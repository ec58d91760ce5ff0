"""How the harness of each property is built from /repo, and what its run covers."""
import glob
import os
import sys

# never part of the library under test: the program's entry point; the OpenCL host code (built by C19 only)
HOST_ONLY = ("main.cpp", "compile_cl.cpp", "gpu_csp.cpp")

PLAIN = ["-std=c++17", "-O2", "-g0", "-D_GLIBCXX_ASSERTIONS", "-w"]
SAN = ["-std=c++17", "-O1", "-g0", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG", "-w", "-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]


def lib_sources(repo):
    return [f for f in sorted(glob.glob(os.path.join(repo, "lib", "*.cpp"))) if os.path.basename(f) not in HOST_ONLY]


def plan_library(recipe, repo, verif, build):
    """Objects of the library and of the harness, then one link."""
    flags = SAN if recipe.get("sanitized") else PLAIN
    cxx = recipe.get("cxx", "g++")
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    objs, stage = [], []
    for src in lib_sources(repo) + [os.path.join(verif, "harness", recipe["harness"])]:
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append([cxx] + flags + inc + ["-c", src, "-o", obj])
    return [stage, [[cxx] + flags + objs + ["-o", os.path.join(build, "harness")]]]


def plan(recipe, repo, verif, build):
    return recipe.get("plan", plan_library)(recipe, repo, verif, build)


RECIPES = {}
for _i in (1, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 21, 22, 24, 25):
    RECIPES["C%02d" % _i] = {"harness": "c%02d.cpp" % _i}
RECIPES["C14"]["sanitized"] = True
RECIPES["C24"]["sanitized"] = True


def plan_program(recipe, repo, verif, build):
    """The real program (plain configuration) and a harness which executes it."""
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    stage, objs = [], []
    for src in lib_sources(repo) + [os.path.join(repo, "lib", "main.cpp")]:
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + ["-c", src, "-o", obj])
    stage.append(["g++"] + PLAIN + inc + [os.path.join(verif, "harness", recipe["harness"]), "-o", os.path.join(build, "harness")])
    if recipe.get("preload"):
        stage.append(["gcc", "-O1", "-w", "-shared", "-fPIC", os.path.join(verif, "harness", recipe["preload"]), "-o", os.path.join(build, "preload.so"), "-ldl"])
    return [stage, [["g++"] + objs + ["-o", os.path.join(build, "program"), "-lboost_program_options"]]]


RECIPES["C18"] = {"harness": "c18.cpp", "plan": plan_program}
RECIPES["C23"] = {"harness": "c23.cpp", "plan": plan_program}
RECIPES["C28"] = {"harness": "c28.cpp", "plan": plan_program, "preload": "fail_alloc.c"}


# library functions of instrumented code which must go through the explorer
REDIRECT = [("memset", "fib_memset"), ("memcpy", "fib_memcpy"), ("memmove", "fib_memmove"), ("memcmp", "fib_memcmp"), ("_Znwm", "fib_new"),
            ("_Znam", "fib_new_array"), ("_ZdlPv", "fib_delete"), ("_ZdaPv", "fib_delete_array"), ("_ZdlPvm", "fib_delete2"), ("_ZdaPvm", "fib_delete2_array")]
# atomics which the compiler adds after the instrumentation (-fno-inline-atomics makes them calls)
REDIRECT += [("__atomic_%s_%d" % (op, n), "fib_atomic_%s_%d" % (op, n)) for n in (1, 2, 4, 8) for op in
             ("compare_exchange", "load", "store", "exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor")]


def redirect(obj, more=()):
    return ["objcopy"] + ["--redefine-sym=%s=%s" % r for r in REDIRECT + list(more)] + [obj]


def keep_apart(obj):
    """The harness keeps its own copies of library templates: those of the code under test are instrumented."""
    local = " ".join("-L '%s'" % x for x in ("_ZNSt*", "_ZNKSt*", "_ZSt*", "_ZN9__gnu_cxx*", "_ZNK9__gnu_cxx*"))
    return ["sh", "-c", "ld -r --force-group-allocation %s -o %s.r && objcopy -w %s -W '_ZZ*' -W '_ZGVZ*' %s.r %s" % (obj, obj, local, obj, obj)]


def plan_openmp(recipe, repo, verif, build):
    """The library in its OpenMP configuration, instrumented; its threads become fibers of the harness."""
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    stage, second, objs = [], [], []
    for src in lib_sources(repo):
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + ["-fopenmp", "-fsanitize=thread", "-fno-inline-atomics", "-c", src, "-o", obj])
        second.append(redirect(obj))
    if recipe.get("selftest"):
        obj = os.path.join(build, "selftest.o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + ["-fopenmp", "-fsanitize=thread", "-fno-inline-atomics", "-c", os.path.join(verif, "harness", recipe["selftest"]), "-o", obj])
        second.append(redirect(obj))
    harness = os.path.join(build, "h.o")
    stage.append(["g++"] + PLAIN + inc + ["-c", os.path.join(verif, "harness", recipe["harness"]), "-o", harness])
    second.append(keep_apart(harness))
    return [stage, second, [["g++"] + objs + [harness, "-o", os.path.join(build, "harness")]]]


RECIPES["C03"] = {"harness": "c03.cpp", "plan": plan_openmp, "selftest": "omp_selftest.cpp"}


def builtins_cl(verif, build):
    """Built-in functions of OpenCL C, found by the compiled kernels in the harness."""
    return ["clang", "-x", "cl", "-cl-std=CL1.2", "-Xclang", "-finclude-default-header", "-target", "x86_64-unknown-linux-gnu", "-fPIC", "-O1", "-w", "-c",
            os.path.join(verif, "harness", "builtins.cl"), "-o", os.path.join(build, "builtins.o")]


def plan_opencl(recipe, repo, verif, build):
    """The library in its OpenCL configuration, instrumented, with a stand-in for OpenCL in the harness."""
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    stage, second, objs = [builtins_cl(verif, build)], [], [os.path.join(build, "builtins.o")]
    host = [os.path.join(repo, "lib", f) for f in ("gpu_csp.cpp", "compile_cl.cpp")]
    for src in lib_sources(repo) + host:
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + ["-DUSE_OPENCL", "-fsanitize=thread", "-fno-inline-atomics", "-c", src, "-o", obj])
        second.append(redirect(obj))
    harness = os.path.join(build, "h.o")
    stage.append(["g++"] + PLAIN + inc + ["-DUSE_OPENCL", "-c", os.path.join(verif, "harness", recipe["harness"]), "-o", harness])
    second.append(keep_apart(harness))
    return [stage, second, [["g++", "-rdynamic"] + objs + [harness, "-o", os.path.join(build, "harness"), "-ldl"]]]


RECIPES["C19"] = {"harness": "c19.cpp", "plan": plan_opencl}


# how host code of CUDA ends the program and what it prints
ENDINGS = [("exit", "fib_exit"), ("_exit", "fib__exit"), ("quick_exit", "fib_quick_exit"), ("abort", "fib_abort"), ("__assert_fail", "fib_assert_fail"),
           ("printf", "fib_printf"), ("__printf_chk", "fib_printf_chk"), ("puts", "fib_puts")]


def plan_cuda(recipe, repo, verif, build):
    """The library in its CUDA configuration, instrumented, both sides, with a stand-in for the CUDA runtime in the harness."""
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    stage, second, objs = [], [], []
    cuda = sorted(glob.glob(os.path.join(repo, "lib", "*.cu")))
    defines = ["-DUSE_CUDA"] + recipe.get("defines", [])
    opencl = [os.path.join(repo, "lib", f) for f in ("gpu_csp.cpp", "compile_cl.cpp")] if recipe.get("opencl") else []
    if opencl:
        stage.append(builtins_cl(verif, build))
        objs.append(os.path.join(build, "builtins.o"))
    stage.append([sys.executable, os.path.join(verif, "tools", "cuda_device.py"), repo, verif, build] + cuda)
    for src in cuda:
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append(["sh", "-c", "%s %s/tools/cuda_host.py %s %s.cpp && exec g++ %s -c %s.cpp -o %s" % (sys.executable, verif, src, obj, " ".join(
            ["-std=c++14", "-O1", "-g0", "-w", "-fsanitize=thread", "-fno-inline-atomics"] + defines + ["-include", os.path.join(verif, "harness/cuda/cuda_runtime.h"),
             "-I" + os.path.join(verif, "harness/cuda"), "-I" + os.path.join(repo, "lib"), "-I" + os.path.join(repo, "include")]), obj, obj)])
        second.append(redirect(obj, ENDINGS))
    for src in lib_sources(repo) + opencl:
        obj = os.path.join(build, os.path.basename(src) + ".o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + defines + ["-fsanitize=thread", "-fno-inline-atomics", "-c", src, "-o", obj])
        second.append(redirect(obj, ENDINGS))
    harness = os.path.join(build, "h.o")
    stage.append(["g++"] + PLAIN + inc + defines + ["-c", os.path.join(verif, "harness", recipe["harness"]), "-o", harness])
    second.append(keep_apart(harness))
    return [stage, second, [["g++", "-rdynamic"] + objs + [harness, "-o", os.path.join(build, "harness"), "-ldl"]]]


RECIPES["C20"] = {"harness": "c20.cpp", "plan": plan_cuda}
RECIPES["C26"] = {"harness": "c26.cpp", "plan": plan_cuda, "opencl": True, "defines": ["-DUSE_OPENCL", "-DNDEBUG"]}


# the program with each set of technologies it can be built with: sources besides those of the library, flags
PROGRAMS = {"omp": ((), ["-fopenmp", "-DSHELL_OMP"]), "cl": (("cl",), ["-DUSE_OPENCL"]), "cuda": (("cuda",), ["-DUSE_CUDA"]), "both": (("cl", "cuda"), ["-DUSE_OPENCL", "-DUSE_CUDA"])}


def plan_programs(recipe, repo, verif, build):
    """The real program in several configurations, its library instrumented, each with stand-ins for what it runs on."""
    inc = ["-I" + os.path.join(repo, "include"), "-I" + os.path.join(verif, "harness")]
    stage, second, third = [builtins_cl(verif, build)], [], []
    cuda = sorted(glob.glob(os.path.join(repo, "lib", "*.cu")))
    opencl = [os.path.join(repo, "lib", f) for f in ("gpu_csp.cpp", "compile_cl.cpp")]
    stage.append([sys.executable, os.path.join(verif, "tools", "cuda_device.py"), repo, verif, build] + cuda)
    for name in recipe.get("programs", PROGRAMS):
        kinds, flags = PROGRAMS[name]
        flags = flags + ["-DNDEBUG"]
        objs = []
        for src in lib_sources(repo) + (opencl if "cl" in kinds else []):
            obj = os.path.join(build, name + "_" + os.path.basename(src) + ".o")
            objs.append(obj)
            stage.append(["g++"] + PLAIN + inc + flags + ["-fsanitize=thread", "-fno-inline-atomics", "-c", src, "-o", obj])
            second.append(redirect(obj))
        if "cuda" in kinds:
            for src in cuda:
                obj = os.path.join(build, name + "_" + os.path.basename(src) + ".o")
                objs.append(obj)
                stage.append(["sh", "-c", "%s %s/tools/cuda_host.py %s %s.cpp && exec g++ %s -c %s.cpp -o %s" % (sys.executable, verif, src, obj, " ".join(
                    ["-std=c++14", "-O1", "-g0", "-w", "-fsanitize=thread", "-fno-inline-atomics"] + flags + ["-include", os.path.join(verif, "harness/cuda/cuda_runtime.h"),
                     "-I" + os.path.join(verif, "harness/cuda"), "-I" + os.path.join(repo, "lib"), "-I" + os.path.join(repo, "include")]), obj, obj)])
                second.append(redirect(obj))
        obj = os.path.join(build, name + "_main.o")
        objs.append(obj)
        stage.append(["g++"] + PLAIN + inc + flags + ["-c", os.path.join(repo, "lib", "main.cpp"), "-o", obj])
        second.append(["objcopy", "--redefine-sym=main=program_main", obj])
        shell = os.path.join(build, name + "_shell.o")
        objs.append(shell)
        stage.append(["g++"] + PLAIN + inc + flags + ["-c", os.path.join(verif, "harness", "c27_shell.cpp"), "-o", shell])
        second.append(keep_apart(shell))
        if "cl" in kinds:
            objs.append(os.path.join(build, "builtins.o"))
        third.append(["g++", "-rdynamic"] + objs + ["-o", os.path.join(build, "program_" + name), "-ldl", "-lboost_program_options"])
    stage.append(["g++"] + PLAIN + inc + [os.path.join(verif, "harness", recipe["harness"]), "-o", os.path.join(build, "harness")])
    return [stage, second, third]


RECIPES["C27"] = {"harness": "c27.cpp", "plan": plan_programs}


import bounds  # noqa: E402
for _k, _r in RECIPES.items():
    _r.setdefault("bounds", bounds.BOUNDS[_k])
    _r.setdefault("assumptions", bounds.ASSUMPTIONS.get(_k, []))
    if _k in bounds.BINDING:
        _r.setdefault("binding", bounds.BINDING[_k])
