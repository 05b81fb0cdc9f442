"""The stack switch routine as C: each machine instruction of the object file
assembled from the current source becomes statements on a machine state
(harness/machine.h)."""
import os
import re
import subprocess

R64 = "rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15".split()
R32 = "eax ecx edx ebx esp ebp esi edi".split()
REG = {}
for i, n in enumerate(R64):
    REG[n] = (i, 8)
    if i < 8:
        REG[R32[i]] = (i, 4)
        REG[R32[i][1:]] = (i, 2)
        if i < 4:
            REG[n[1] + "l"] = (i, 1)
    else:
        for s, k in (("d", 4), ("w", 2), ("b", 1)):
            REG[n + s] = (i, k)
for i, n in enumerate(("spl", "bpl", "sil", "dil")):
    REG[n] = (4 + i, 1)
SIZE = {"QWORD": 8, "DWORD": 4, "WORD": 2, "BYTE": 1}
CC = {"e": "ZF", "z": "ZF", "ne": "!ZF", "nz": "!ZF", "a": "!CF && !ZF", "ae": "!CF", "nc": "!CF", "b": "CF", "c": "CF", "be": "(CF || ZF)",
      "g": "!ZF && SF == OF", "ge": "SF == OF", "l": "SF != OF", "le": "(ZF || SF != OF)", "s": "SF", "ns": "!SF", "o": "OF", "no": "!OF"}


class Unknown(Exception):
    pass


def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise Unknown("command failed: %s\n%s" % (" ".join(cmd), r.stderr[-1000:]))
    return r.stdout


def assemble(repo, arch, out):
    o = os.path.join(out, "execute-%s.o" % arch)
    os.makedirs(out, exist_ok=True)
    sh(["gcc"] + (["-m32"] if arch == "i386" else []) + ["-g", "-c", "-I" + os.path.join(repo, "src"), "-o", o,
        os.path.join(repo, "src/kern/task/hev-task-execute.S")])
    return o


def operand(t, word):
    """('r', index, size) | ('i', value) | ('m', address expression, size or None)"""
    t = t.strip()
    if t in REG:
        return ("r",) + REG[t]
    m = re.fullmatch(r"(-?)(0x[0-9a-f]+|\d+)", t)
    if m:
        return ("i", int(m.group(1) + m.group(2), 0))
    m = re.fullmatch(r"(?:(QWORD|DWORD|WORD|BYTE) PTR )?(?:[sd]s:)?\[([^\]]*)\]", t)
    if m:
        e = []
        for sign, x in re.findall(r"([+-]?)([^+-]+)", m.group(2)):
            if "*" in x:
                r, k = x.split("*")
                e.append("%s R (%d, %d) * %s" % (sign or "+", REG[r][0], REG[r][1], k))
            elif x in REG:
                e.append("%s R (%d, %d)" % (sign or "+", REG[x][0], REG[x][1]))
            elif re.fullmatch(r"0x[0-9a-f]+|\d+", x):
                e.append("%s %sull" % (sign or "+", x))
            else:
                raise Unknown("operand " + t)
        return ("m", "(uint64_t)(0 %s) & MASK (%d)" % (" ".join(e), word), SIZE.get(m.group(1)))
    raise Unknown("operand " + t)


def rd(o, n):
    if o[0] == "r":
        return "R (%d, %d)" % (o[1], n)
    if o[0] == "i":
        return "(%dull & MASK (%d))" % (o[1] & (2 ** 64 - 1), n)
    return "ld (%s, %d)" % (o[1], n)


def wr(o, n, v):
    if o[0] == "r":
        return "W (%d, %d, %s);" % (o[1], n, v)
    if o[0] == "m":
        return "st (%s, %s, %d);" % (o[1], v, n)
    raise Unknown("destination")


def statement(op, args, word, targets):
    a = []
    if not (op.startswith("j") and op != "jmp") and op != "jmp":
        a = [operand(x, word) for x in re.split(r",(?![^\[]*\])", args)] if args else []
    sp = 4
    n = None
    for x in a:
        if x[0] == "r":
            n = x[2]
            break
    if n is None:
        for x in a:
            if x[0] == "m" and x[2]:
                n = x[2]
    if n is None:
        n = word
    if op in ("nop", "endbr64", "endbr32", "data16", "nopw", "nopl", "cs", "cld"):
        return ";"
    if op in ("mov", "movabs"):
        return wr(a[0], n, rd(a[1], n))
    if op in ("movzx", "movsx", "movsxd"):
        k = a[1][2]
        v = rd(a[1], k)
        return wr(a[0], a[0][2], v if op == "movzx" else "SX (%s, %d)" % (v, k))
    if op == "lea":
        return wr(a[0], n, a[1][1])
    if op in ("add", "sub", "and", "or", "xor"):
        return "{ uint64_t x = %s, y = %s, z = F_%s (x, y, %d); %s }" % (rd(a[0], n), rd(a[1], n), op, n, wr(a[0], n, "z"))
    if op in ("cmp", "test"):
        return "{ uint64_t x = %s, y = %s; (void)F_%s (x, y, %d); }" % (rd(a[0], n), rd(a[1], n), "sub" if op == "cmp" else "and", n)
    if op in ("inc", "dec"):
        return "{ uint64_t x = %s; int c = CF; uint64_t z = F_%s (x, 1, %d); CF = c; %s }" % (rd(a[0], n), "add" if op == "inc" else "sub", n, wr(a[0], n, "z"))
    if op == "neg":
        return "{ uint64_t x = %s, z = F_sub (0, x, %d); %s }" % (rd(a[0], n), n, wr(a[0], n, "z"))
    if op == "not":
        return wr(a[0], n, "~" + rd(a[0], n))
    if op in ("shl", "sal", "shr", "sar"):
        if len(a) > 1 and a[1][0] != "i":
            raise Unknown(op + " " + args)
        k = (a[1][1] if len(a) > 1 else 1) & (63 if n == 8 else 31)
        v = rd(a[0], n)
        return wr(a[0], n, {"shl": "%s << %d", "sal": "%s << %d", "shr": "%s >> %d", "sar": "SX (%s, " + str(n) + ") >> %d"}[op] % (v, k))
    if op == "push":
        return "{ uint64_t v = %s; W (%d, %d, R (%d, %d) - %d); st (R (%d, %d), v, %d); }" % (rd(a[0], word), sp, word, sp, word, word, sp, word, word)
    if op == "pop":
        return "{ uint64_t v = ld (R (%d, %d), %d); W (%d, %d, R (%d, %d) + %d); %s }" % (sp, word, word, sp, word, sp, word, word, wr(a[0], word, "v"))
    if op == "xchg":
        return "{ uint64_t x = %s, y = %s; %s %s }" % (rd(a[0], n), rd(a[1], n), wr(a[0], n, "y"), wr(a[1], n, "x"))
    if op == "leave":
        return "W (4, %d, R (5, %d)); { uint64_t v = ld (R (4, %d), %d); W (4, %d, R (4, %d) + %d); W (5, %d, v); }" % ((word,) * 8)
    if op == "call":
        if a[0][0] == "i":
            raise Unknown("call " + args)
        return "do_call (%s);" % rd(a[0], word)
    if op == "ret":
        return "do_ret (%s); return;" % (a[0][1] if a else 0)
    if op == "jmp" or op[0] == "j":
        m = re.match(r"(0x)?([0-9a-f]+)\b", args)
        if not m or (op != "jmp" and op[1:] not in CC):
            raise Unknown(op + " " + args)
        t = int(m.group(2), 16)
        targets.add(t)
        return ("goto L%x;" % t) if op == "jmp" else "if (%s) goto L%x;" % (CC[op[1:]], t)
    raise Unknown("instruction %s %s" % (op, args))


def lift(repo, arch, out):
    """write the C file, return its path"""
    o = assemble(repo, arch, out)
    if "RELOCATION RECORDS FOR [.text]" in sh(["objdump", "-r", o]):
        raise Unknown("the routine refers to other symbols")
    text = sh(["objdump", "-d", "-l", "-M", "intel", "--no-show-raw-insn", o])
    word = 8 if arch == "x86_64" else 4
    body, seen, targets, on, here = [], [], set(), False, None
    for line in text.split("\n"):
        if re.match(r"[0-9a-f]+ <", line):
            on = "<hev_task_execute>" in line
            continue
        m = re.match(r"(/\S+):(\d+)", line)
        if on and m:
            here = os.path.normpath(m.group(1)), int(m.group(2))
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*?)\s*(?:[#<].*)?$", line)
        if not on or not m:
            continue
        ad, op, args = int(m.group(1), 16), m.group(2), m.group(3)
        seen.append(ad)
        if op in ("notrack", "bnd", "rep", "repz"):
            op, _, args = args.partition(" ")
        if here:
            body.append('#line %d "%s"' % (here[1], here[0]))
        body.append("    L%x: /* %s %s */ %s" % (ad, op, args, statement(op, args.strip(), word, targets)))
    if not body:
        raise Unknown("the routine was not found")
    if not targets <= set(seen):
        raise Unknown("a jump out of the routine")
    path = os.path.join(out, "lifted.c")
    with open(path, "w") as f:
        f.write("#include \"machine.h\"\n#line 1 \"%s\"\nvoid lifted (void)\n{\n%s\n    sym_fail (\"the routine runs past its end\");\n}\n" % (here[0] if here else "lifted.c", "\n".join(body)))
    return path


def program32(repo, here, out):
    """the program that runs the real i386 routine"""
    o = assemble(repo, "i386", out)
    exe = os.path.join(out, "call32")
    sh(["gcc", "-m32", "-O1", "-fno-pic", "-no-pie", "-nostdlib", "-static", "-fno-stack-protector", "-mno-sse", "-w", "-o", exe,
        os.path.join(here, "native", "call32.c"), o])
    return exe
