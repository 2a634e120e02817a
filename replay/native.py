"""Native replay of a counterexample: instrument the harness IR (scheduling hooks before atomic operations,
checked allocator), compile it with the toolchain's own llc, run it with the recorded inputs and schedule."""
import os, re, subprocess, glob, json

HERE = os.path.dirname(os.path.abspath(__file__))
REN = {n: "lsxrt_" + n for n in ["malloc", "calloc", "realloc", "free", "posix_memalign", "aligned_alloc", "syscall", "sched_yield"]}
ORD = {"unordered": 0, "monotonic": 0, "acquire": 1, "release": 2, "acq_rel": 3, "seq_cst": 3}


def tool(name):
    c = sorted(glob.glob(os.path.expanduser("~/.rustup/toolchains/stable-*/lib/rustlib/*/bin/" + name)))
    if not c:
        c = sorted(glob.glob("/root/.rustup/toolchains/*/lib/rustlib/*/bin/" + name)) or glob.glob("/usr/local/rustup/toolchains/*/lib/rustlib/*/bin/" + name)
    if not c:
        raise RuntimeError("no " + name)
    return c[0]


def size_of(t):
    t = t.strip()
    if t == "ptr":
        return 8
    m = re.fullmatch(r"i(\d+)", t)
    if m:
        return (int(m.group(1)) + 7) // 8
    m = re.fullmatch(r"<(\d+) x (.*)>", t)
    if m:
        return int(m.group(1)) * size_of(m.group(2))
    return {"double": 8, "float": 4}.get(t, 0)


def top_split(s):
    r, d, c = [], 0, ""
    for ch in s:
        if ch in "([{<":
            d += 1
        elif ch in ")]}>":
            d -= 1
        if ch == "," and d == 0:
            r.append(c.strip())
            c = ""
        else:
            c += ch
    r.append(c.strip())
    return r


def instrument(text, races):
    out = []
    ren = re.compile(r"@(" + "|".join(REN) + r")\(")
    for line in text.split("\n"):
        s = line.lstrip()
        if line.startswith("  "):
            body = s.split(" = ", 1)[1] if " = " in s and s.startswith("%") else s
            atomic = body.startswith(("load atomic", "store atomic", "atomicrmw", "cmpxchg"))
            if atomic:
                out.append("  call void @lsxrt_atomic()")
            if races:
                if atomic:
                    if body.startswith("load"):
                        m = re.match(r"load atomic (?:volatile )?(\S+), ptr (.+?) (?:syncscope\S+ )?(unordered|monotonic|acquire|seq_cst)", body)
                        ty, p, o, k = m.group(1), m.group(2), ORD[m.group(3)], 0
                    elif body.startswith("store"):
                        m = re.match(r"store atomic (?:volatile )?(\S+) .*?, ptr (.+?) (unordered|monotonic|release|seq_cst)", body)
                        ty, p, o, k = m.group(1), m.group(2), ORD[m.group(3)], 1
                    elif body.startswith("atomicrmw"):
                        m = re.match(r"atomicrmw (?:volatile )?\w+ ptr (.+?), (\S+) .*? (monotonic|acquire|release|acq_rel|seq_cst)", body)
                        ty, p, o, k = m.group(2), m.group(1), ORD[m.group(3)], 2
                    else:
                        m = re.match(r"cmpxchg (?:weak )?(?:volatile )?ptr (.+?), (\S+) .*? (monotonic|acquire|release|acq_rel|seq_cst) (monotonic|acquire|seq_cst)", body)
                        ty, p, o, k = m.group(2), m.group(1), ORD[m.group(3)], 2
                    out.append("  call void @lsxrt_sync(ptr %s, i64 %d, i32 %d, i32 %d)" % (p, size_of(ty), k, o))
                elif body.startswith("fence"):
                    m = re.match(r"fence (?:syncscope\S+ )?(\w+)", body)
                    out.append("  call void @lsxrt_sync(ptr null, i64 0, i32 3, i32 %d)" % ORD.get(m.group(1), 3))
                elif body.startswith(("load ", "store ")):
                    st = body.startswith("store")
                    parts = top_split(body.split(" ", 1)[1])
                    t = parts[0].replace("volatile ", "")
                    if st:
                        t = "ptr" if t.startswith("ptr") else t[: t.index(">") + 1] if t.startswith("<") else t.split(" ")[0]
                    if size_of(t):
                        out.append("  call void @lsxrt_%s(%s, i64 %d)" % ("wr" if st else "rd", parts[1], size_of(t)))
                elif "@llvm.mem" in body:
                    m = re.search(r"@llvm\.mem(cpy|move|set)[.\w]*\((.*)\)", body)
                    if m:
                        p = [re.sub(r"^ptr .*?(?=[%@]|getelementptr|inttoptr)", "ptr ", x) for x in top_split(m.group(2))]
                        n = p[2].split(" ")[-1]
                        out.append("  call void @lsxrt_wr(%s, i64 %s)" % (p[0], n))
                        if m.group(1) != "set":
                            out.append("  call void @lsxrt_rd(%s, i64 %s)" % (p[1], n))
            if "@llvm.x86.sse2.pause" in body:
                line = "  call void @lsxrt_pause()"
        line = ren.sub(lambda m: "@" + REN[m.group(1)] + "(", line)
        out.append(line)
    hooks = "\ndeclare void @lsxrt_atomic()\ndeclare void @lsxrt_pause()\n"
    if races:
        hooks += "declare void @lsxrt_sync(ptr, i64, i32, i32)\ndeclare void @lsxrt_rd(ptr, i64)\ndeclare void @lsxrt_wr(ptr, i64)\n"
    return "\n".join(out) + hooks


def build(ir, entry, work, races=False):
    os.makedirs(work, exist_ok=True)
    exe = os.path.join(work, "replay_%s%s" % (entry, "_r" if races else ""))
    small = os.path.join(work, entry + ".small.ll")
    subprocess.run([tool("opt"), "-S", "-strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + entry, ir, "-o", small], check=True, stderr=subprocess.DEVNULL)
    # only the private symbols of libc are renamed; attributes that name allocation functions are harmless
    text = instrument(open(small).read(), races)
    text = re.sub(r"^declare .*@llvm\.x86\.sse2\.pause.*$", "", text, flags=re.M) if "call void @llvm.x86" not in text else text
    ins = os.path.join(work, entry + ".ins.ll")
    open(ins, "w").write(text)
    obj = os.path.join(work, entry + ".o")
    subprocess.run([tool("llc"), "-O1", "-filetype=obj", "-relocation-model=pic", ins, "-o", obj], check=True)
    subprocess.run(["gcc", "-O1", "-w", "-DENTRY=" + entry, os.path.join(HERE, "rt.c"), obj, "-o", exe, "-lpthread", "-lgcc_s", "-ldl", "-lm"], check=True)
    return exe


def run(exe, case, work):
    v = os.path.join(work, "values.txt")
    s = os.path.join(work, "schedule.txt")
    open(v, "w").write(" ".join(map(str, case["values"])))
    open(s, "w").write(" ".join(map(str, case["schedule"])))
    env = dict(os.environ, RUST_BACKTRACE="0")
    r = subprocess.run([exe, v, s] + [str(p) for p in case["params"]], capture_output=True, text=True, env=env, timeout=60)
    return r.returncode, (r.stdout + r.stderr).strip()


EXES = {}


def replay(ir, case, work):
    races = case["kind"] == "race"
    k = (ir, case["entry"], work, races)
    if k not in EXES:
        EXES[k] = build(ir, case["entry"], work, races)
    return run(EXES[k], case, work)


if __name__ == "__main__":
    import sys
    case = json.load(open(sys.argv[2]))
    print(replay(sys.argv[1], case, sys.argv[3]))
