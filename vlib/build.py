"""Builds the real skull sources from /repo's working tree, with the driver."""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")

VARIANTS = {
    # plain: what a release user runs
    "plain": ["-O1", "-g"],
    # asan: memory errors and undefined behaviour abort
    "asan": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all"],
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def llvm_config():
    for c in ("llvm-config-19", "llvm-config-16", "llvm-config"):
        if shutil.which(c):
            return c
    raise SystemExit("no llvm-config")


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "skull")):
        for f in fs:
            if f.endswith(".c") and not f.startswith("."):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def tree_hash(extra):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(os.path.join(REPO, "skull"))):
        ds.sort()
        for f in sorted(fs):
            if f.endswith((".c", ".h", ".ll")) and f != "shim.h":
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    for x in extra:
        h.update(repr(x).encode())
    return h.hexdigest()[:16]


def headers():
    h = os.path.join(VERIF, "harness")
    return sorted(os.path.join(h, f) for f in os.listdir(h) if f.endswith(".h"))


def tool(name, obj=False):
    """A harness program (or object) that contains nothing of /repo."""
    src = os.path.join(VERIF, "harness", name + ".c")
    key = hashlib.sha256("".join(open(s).read() for s in [src] + headers()).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, f"tool-{name}-{key}" + (".so" if obj == "so" else ".o" if obj else ""))
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        r = sh(["gcc", "-O1", "-w", "-fPIC", "-shared", src, "-o", exe + f".{os.getpid()}", "-ldl"] if obj == "so" else
               ["gcc", "-O1", "-w", "-fno-pie", "-c", src, "-o", exe + f".{os.getpid()}"] if obj else
               ["gcc", "-O1", "-w", "-rdynamic", src, "-o", exe + f".{os.getpid()}", "-ldl", "-lm"])
        if r.returncode:
            raise BuildError(r.stdout)
        os.rename(exe + f".{os.getpid()}", exe)
    return exe


class BuildError(Exception):
    pass


def build(kind, variant, extra_src=(), ldflags=()):
    """kind: 'driver' (driver.c instead of cli.c), 'cli' (the real command),
    or the name of a harness source.  Returns the path of the executable."""
    srcs = sources()
    hsrc = []
    if kind == "cli":
        pass
    else:
        srcs = [s for s in srcs if s != "skull/cli.c"]
        hsrc = [os.path.join(VERIF, "harness", kind + ".c")]
    hsrc += [os.path.join(VERIF, "harness", s) for s in extra_src]
    flags = VARIANTS[variant]
    if extra_src:
        variant = variant + "-" + "-".join(x.split(".")[0] for x in extra_src)
    key = tree_hash([kind, variant, flags, list(ldflags)] + [open(s).read() for s in hsrc + headers()])
    out_dir = os.path.join(BUILD, f"{kind}-{variant}-{key}")
    exe = os.path.join(out_dir, kind)
    if os.path.exists(exe):
        return exe
    tmp = out_dir + f".tmp{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/gen/skull")
    lc = llvm_config()
    cflags = sh([lc, "--cflags"]).stdout.split()
    libs = sh([lc, "--ldflags", "--libs"]).stdout.split()
    # the embedded shim, generated as the Makefile does, from the current shim.ll
    data = open(os.path.join(REPO, "skull/shim.ll"), "rb").read()
    with open(tmp + "/gen/skull/shim.h", "w") as f:
        f.write("char LL_SHIM[] = {%s};\nunsigned int LL_SHIM_len = %d;\n"
                % (",".join("0x%02x" % b for b in data), len(data)))
    # shim.h next to the sources would shadow ours: stage the tree
    shutil.copytree(os.path.join(REPO, "skull"), tmp + "/src/skull",
                    ignore=lambda d, fs: [f for f in fs if f == "shim.h"])
    shutil.copy(tmp + "/gen/skull/shim.h", tmp + "/src/skull/shim.h")
    base = ["gcc", "-std=c18", "-w", "-D_GNU_SOURCE", "-I" + tmp + "/src", '-DSKULL_VERSION="verif"',
            "-fPIC"] + flags + cflags

    def one(job):
        i, s = job
        o = f"{tmp}/{i}.o"
        src = s if os.path.isabs(s) else os.path.join(tmp, "src", s)
        r = sh(base + ["-c", src, "-o", o], cwd=tmp + "/src")
        if r.returncode:
            raise BuildError(s + ":\n" + r.stdout)
        return o

    with cf.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, enumerate(srcs + hsrc)))
    r = sh(["gcc"] + flags + objs + ["-o", tmp + "/" + kind, "-rdynamic"] + libs
           + ["-lm", "-lpthread", "-ldl"] + list(ldflags))
    if r.returncode:
        raise BuildError("link:\n" + r.stdout)
    for o in objs:
        os.unlink(o)
    shutil.copy(os.path.join(REPO, "skull/shim.ll"), tmp + "/shim.ll")
    # keep only the newest builds of this kind
    try:
        os.rename(tmp, out_dir)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    prune(kind, variant, out_dir)
    return exe


def prune(kind, variant, keep):
    pre = f"{kind}-{variant}-"
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)
          if d.startswith(pre) and ".tmp" not in d]
    ds = sorted((d for d in ds if d != keep), key=os.path.getmtime)
    for d in ds[:-4]:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    for k, v in (("driver", "plain"), ("driver", "asan"), ("cli", "plain")):
        print(build(k, v))
    print(tool("crun"), tool("fakecc"), tool("nrun", True), tool("envexe", True))
