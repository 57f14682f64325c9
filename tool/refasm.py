"""Reference assembler: what q3asm's input means, written down independently of q3asm.c.
assemble([(name, text)]) -> Image or AsmError list."""
import struct

VMOPS = ("UNDEF IGNORE BREAK ENTER LEAVE CALL PUSH POP CONST LOCAL JUMP EQ NE LTI LEI GTI GEI LTU LEU GTU GEU EQF NEF LTF LEF GTF GEF "
         "LOAD1 LOAD2 LOAD4 STORE1 STORE2 STORE4 ARG BLOCK_COPY SEX8 SEX16 NEGI ADD SUB DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR BCOM "
         "LSH RSHI RSHU NEGF ADDF SUBF DIVF MULF CVIF CVFI").split()
OP = {n: i for i, n in enumerate(VMOPS)}

# lcc operator + type + size -> VM instruction
TABLE = {"BREAK": "BREAK", "ASGNB": "BLOCK_COPY", "INDIRB": None, "CVFI4": "CVFI", "CVIF4": "CVIF", "CVII4": "SEX", "NEGF4": "NEGF", "NEGI4": "NEGI",
         "ADDRGP4": "CONST", "JUMPV": "JUMP", "ADDP": "ADD", "DIVF4": "DIVF", "DIVI4": "DIVI", "DIVU4": "DIVU", "MODI4": "MODI", "MODU4": "MODU",
         "MULF4": "MULF", "MULI4": "MULI", "MULU4": "MULU", "RSHI4": "RSHI", "RSHU4": "RSHU", "ADDF4": "ADDF", "SUBF4": "SUBF"}
for t in "FIPU":
    TABLE["CNST%s4" % t] = "CONST"
    TABLE["ASGN%s4" % t] = "STORE4"
    TABLE["INDIR%s4" % t] = "LOAD4"
for t in "IU":
    for z in "12":
        TABLE["CNST" + t + z] = "CONST"
        TABLE["ASGN" + t + z] = "STORE" + z
        TABLE["INDIR" + t + z] = "LOAD" + z
    for a, b in (("LSH", "LSH"), ("BAND", "BAND"), ("BCOM", "BCOM"), ("BOR", "BOR"), ("BXOR", "BXOR")):
        TABLE[a + t + "4"] = b
for t in "IPU":
    TABLE["ADD%s4" % t] = "ADD"
    TABLE["SUB%s4" % t] = "SUB"
for c in ("CVII1", "CVII2", "CVIU4", "CVPU4", "CVUI4", "CVUP4", "CVUU4", "CVUU1", "CVUU2"):
    TABLE[c] = None
for c in ("EQ", "NE"):
    TABLE[c + "I4"] = TABLE[c + "U4"] = c
    TABLE[c + "F4"] = c + "F"
for c in ("LT", "LE", "GT", "GE"):
    for t in "IUF":
        TABLE[c + t + "4"] = c + t
UNDEFINED = ["CVFF4", "LOADB4", "LOADF4", "LOADI4", "LOADP4", "LOADU4"]


class AsmError(Exception):
    pass


def num(s):
    """decimal number, 32 bits"""
    return int(s) & 0xffffffff


class Image:
    pass


def assemble(files, stack=0x10000):
    """two passes over tokenised lines"""
    SEG = {"code": 0, "data": 1, "lit": 2, "bss": 3}
    syms = {}          # name -> [seg, value]
    order = []
    lines = []
    for fi, (fname, text) in enumerate(files):
        for ln, line in enumerate(text.split("\n"), 1):
            tok = split_tokens(line)
            if tok:
                lines.append((fi, fname, ln, tok))

    def local(name, fi):
        return "%s_%d" % (name, fi) if name.startswith("$") else name

    base = [0, 0, 0, 0]
    for pas in (0, 1):
        used = [0, 4, 0, 0]
        out = [bytearray(), bytearray(4), bytearray(), bytearray()]
        icount = 0
        seg = 0
        last = None
        nl = na = argofs = 0
        fresh = False

        def emit(s, b):
            if len(out[s]) < used[s]:
                out[s].extend(bytes(used[s] - len(out[s])))
            out[s][used[s]:used[s] + len(b)] = b
            used[s] += len(b)

        def e32(s, v):
            emit(s, struct.pack("<I", v & 0xffffffff))

        def op(n, v=None):
            nonlocal icount
            emit(0, bytes([OP[n]]))
            if v is not None:
                e32(0, v)
            icount += 1

        def define(name, v, fi):
            nonlocal last
            if pas == 0:
                n = local(name, fi)
                if n in syms:
                    raise AsmError("duplicate " + n)
                syms[n] = [seg, v]
                order.append(n)
                last = n

        def lookup(name, fi):
            if pas == 0:
                return 0
            n = local(name, fi)
            if n not in syms:
                raise AsmError("undefined " + n)
            s, v = syms[n]
            return base[s] + v

        def expr(t, fi):
            i = 1 if t.startswith("-") else 0
            while i < len(t) and t[i] not in "+-":
                i += 1
            h = t[:i]
            v = num(h) if h[0] in "-0123456789" else lookup(h, fi)
            while i < len(t):
                j = i + 1
                while j < len(t) and t[j] not in "+-":
                    j += 1
                k = num(t[i + 1:j])
                v = v + k if t[i] == "+" else v - k
                i = j
            return v & 0xffffffff

        def place(s):
            """where a value goes: the first one behind a label selects data or lit for the whole object"""
            nonlocal seg, fresh
            if seg != s and (fresh or seg not in (1, 2)):
                seg = s
                used[s] = (used[s] + 3) & ~3
                if pas == 0 and fresh:
                    syms[last] = [s, used[s]]
            fresh = False

        for fi, fname, ln, t in lines:
            k = t[0]
            if k in TABLE:
                n = TABLE[k]
                if n is None:
                    continue
                a = t[1:]
                if n == "SEX":
                    n = "SEX8" if a[0][0] == "1" else "SEX16"
                    a = a[1:]
                if a and n not in ("CVIF", "CVFI"):
                    v = expr(a[0], fi)
                    if n == "BLOCK_COPY":
                        v = (v + 3) & ~3
                    op(n, v)
                else:
                    op(n)
            elif k.startswith("ADDRL"):
                op("LOCAL", 8 + na + signed(expr(t[1], fi)))
            elif k.startswith("ADDRF"):
                op("LOCAL", 16 + na + nl + signed(expr(t[1], fi)))
            elif k.startswith("ARG"):
                emit(0, bytes([OP["ARG"], 8 + argofs]))
                icount += 1
                argofs += 4
            elif k.startswith("CALL"):
                op("CALL")
                argofs = 0
            elif k.startswith("RET"):
                op("LEAVE", 8 + nl + na)
            elif k.startswith("pop"):
                op("POP")
            elif k == "proc":
                fresh = False
                define(t[1], icount, fi)
                nl, na = (int(t[2]) + 3) & ~3, (int(t[3]) + 3) & ~3
                op("ENTER", 8 + nl + na)
            elif k == "endproc":
                op("PUSH")
                op("LEAVE", 8 + nl + na)
            elif k == "address":
                v = expr(t[1], fi)
                place(1)
                e32(seg, v)
            elif k in ("export", "import", "line", "file"):
                pass
            elif k in SEG:
                seg = SEG[k]
            elif k == "equ":
                fresh = False
                define(t[1], num(t[2]), fi)
            elif k == "align":
                a = int(t[1])
                used[seg] = (used[seg] + a - 1) // a * a
            elif k == "skip":
                used[seg] += int(t[1])
                fresh = False
            elif k == "byte":
                z, v = int(t[1]), num(t[2])
                place({1: 2, 4: 1}[z])
                emit(seg, struct.pack("<I", v)[:z])
            elif k.startswith("LABEL"):
                define(t[1], icount if seg == 0 else used[seg], fi)
                fresh = True
            else:
                raise AsmError("unknown " + k)
        used = [(u + 3) & ~3 for u in used]
        base = [0, 0, used[1], used[1] + used[2]]
    for s in range(3):
        out[s].extend(bytes(used[s] - len(out[s])))
    im = Image()
    im.icount, im.code, im.data, im.lit, im.bss = icount, bytes(out[0]), bytes(out[1]), bytes(out[2]), used[3] + stack
    im.syms, im.bssUsed = syms, used[3]
    im.bytes = struct.pack("<8I", 0x12721444, icount, 32, len(im.code), 32 + len(im.code), len(im.data), len(im.lit), im.bss) + im.code + im.data + im.lit
    return im


def signed(v):
    return v - (1 << 32) if v & 0x80000000 else v


def split_tokens(line):
    """a comment starts with a token that begins with ';'"""
    r = []
    for t in line.split():
        if t.startswith(";"):
            break
        r.append(t)
    return r
