"""Run by gdb: executes the jobs of $JOBS in the program loaded, and writes
what the debugger shows at every call of an external function."""
import json
import os

import gdb

jobs = json.load(open(os.environ["JOBS"]))
out = []


def conv(v, depth=0):
    try:
        if v.is_optimized_out:
            return None
        t = v.type.strip_typedefs()
        c = t.code
        if c == gdb.TYPE_CODE_PTR:
            to = t.target().strip_typedefs()
            if to.sizeof == 1 and to.code in (gdb.TYPE_CODE_INT, gdb.TYPE_CODE_CHAR):
                b = bytearray()
                for i in range(500):
                    x = int(v[i]) & 255
                    if not x:
                        break
                    b.append(x)
                return {"s": b.hex()}
            return {"p": conv(v.dereference(), depth + 1) if depth < 8 else None}
        if c == gdb.TYPE_CODE_FLT:
            return {"f": float(v).hex()}
        if c == gdb.TYPE_CODE_BOOL:
            return {"b": int(v)}
        return {"i": int(v)}
    except gdb.error as x:
        return {"e": str(x)}


def frame(f):
    sal = f.find_sal()
    local, glob = {}, {}
    try:
        b = f.block()
    except RuntimeError:
        return [f.name(), sal.symtab.filename if sal.symtab else None, sal.line, None, None]
    top = b
    while b is not None and b.superblock is not None and not b.is_static and not b.is_global:
        for s in b:
            if (s.is_variable or s.is_argument) and s.name not in local:
                local[s.name] = [conv(s.value(f)), str(s.type), s.line, bool(s.is_argument)]
        if b.function is not None:
            break
        b = b.superblock
    for b in (top.static_block, top.global_block):
        for s in b:
            if s.is_variable:
                glob.setdefault(s.name, []).append([conv(s.value()), str(s.type), s.line])
    return [f.name(), sal.symtab.filename if sal.symtab else None, sal.line, local, glob]


class Stop(gdb.Breakpoint):
    def stop(self):
        try:
            fs = []
            f = gdb.newest_frame().older()
            while f is not None and f.is_valid() and f.find_sal().symtab is None:
                f = f.older()
            while f is not None and f.is_valid() and f.find_sal().symtab is not None and len(fs) < 60:
                fs.append(frame(f))
                f = f.older()
            cur.append(fs)
        except Exception as x:
            cur.append(repr(x))
        return False


for c in ("set confirm off", "set pagination off", "set width 0", "set print thread-events off", "set debuginfod enabled off",
          "set startup-with-shell off", "set python print-stack full"):
    try:
        gdb.execute(c)
    except gdb.error:
        pass
Stop("dbg_stop", internal=True)
for entry, script, limit in jobs:
    cur = []
    try:
        gdb.execute(f"run {entry} {script or '-'} {limit}", to_string=True)
        gone = not [t for t in gdb.selected_inferior().threads()]
        if not gone:
            gdb.execute("kill", to_string=True)
        out.append([cur, gone])
    except gdb.error as x:
        out.append([cur, str(x)])
json.dump(out, open(os.environ["JOBS"] + ".out", "w"))
