"""Independent description of the 6809 and 6309 instruction sets.

Written from the processors' opcode maps (row/column structure), not from the
assembler's tables: it is the oracle those tables are judged against.

encode(isa, mnemonic, operands, pc, dp) returns a list of acceptable outcomes'
description, see class Enc."""

A8 = dict(sub=0, cmp=1, sbc=2, bit=5, ld=6, eor=8, adc=9, or_=0xa, add=0xb)
A8["and"] = 4

INH, MEMO, REL, LEAO, STK, PAIRO, TFMO, BITO, IMMEM = \
    "inh mem rel lea stk pair tfm bit immem".split()


class Op:
    __slots__ = ("kind", "inh", "imm", "immsize", "dir", "idx", "ext", "rel", "arg")

    def __init__(s, kind, inh=None, imm=None, immsize=0, dir=None, idx=None, ext=None, rel=0, arg=None):
        s.kind, s.inh, s.imm, s.immsize = kind, inh, imm, immsize
        s.dir, s.idx, s.ext, s.rel, s.arg = dir, idx, ext, rel, arg


def _mem(base, immsize=0, noimm=False):
    """Column layout of the 0x80-0xff half: immediate at base, then +10, +20, +30."""
    return Op(MEMO, imm=None if noimm else base, immsize=immsize,
              dir=base + 0x10, idx=base + 0x20, ext=base + 0x30)


def tables():
    o, h = {}, {}
    rmw = dict(neg=0, com=3, lsr=4, ror=6, asr=7, asl=8, lsl=8, rol=9, dec=0xa, inc=0xc,
               tst=0xd, clr=0xf)
    for n, c in rmw.items():
        o[n] = Op(MEMO, dir=c, idx=0x60 + c, ext=0x70 + c)
        o[n + "a"] = Op(INH, inh=0x40 + c)
        o[n + "b"] = Op(INH, inh=0x50 + c)
        if n not in ():
            h[n + "d"] = Op(INH, inh=0x1040 + c)
        if n not in ("neg", "asr", "asl", "lsl"):
            h[n + "w"] = Op(INH, inh=0x1050 + c)
        if n in ("com", "dec", "inc", "tst", "clr"):
            h[n + "e"] = Op(INH, inh=0x1140 + c)
            h[n + "f"] = Op(INH, inh=0x1150 + c)
    o["jmp"] = Op(MEMO, dir=0x0e, idx=0x6e, ext=0x7e)
    for n, c in dict(nop=0x12, sync=0x13, daa=0x19, sex=0x1d, rts=0x39, abx=0x3a, rti=0x3b,
                     mul=0x3d, swi=0x3f, swi2=0x103f, swi3=0x113f).items():
        o[n] = Op(INH, inh=c)
    for n, c in dict(orcc=0x1a, andcc=0x1c, cwai=0x3c).items():
        o[n] = Op(MEMO, imm=c, immsize=1)
    conds = "ra rn hi ls cc cs ne eq vc vs pl mi ge lt gt le".split()
    alias = {"cc": "hs", "cs": "lo"}
    for i, c in enumerate(conds):
        for nm in [c] + ([alias[c]] if c in alias else []):
            o["b" + nm] = Op(REL, inh=0x20 + i, rel=1)
            o["lb" + nm] = Op(REL, inh=0x16 if nm == "ra" else 0x1020 + i, rel=2)
    o["bsr"] = Op(REL, inh=0x8d, rel=1)
    o["lbsr"] = Op(REL, inh=0x17, rel=2)
    for i, r in enumerate("xysu"):
        o["lea" + r] = Op(LEAO, idx=0x30 + i)
    for n, c, s in (("pshs", 0x34, "s"), ("puls", 0x35, "s"), ("pshu", 0x36, "u"), ("pulu", 0x37, "u")):
        o[n] = Op(STK, inh=c, arg=s)
    o["exg"] = Op(PAIRO, inh=0x1e)
    o["tfr"] = Op(PAIRO, inh=0x1f)
    for half, acc in ((0x80, "a"), (0xc0, "b")):
        for n, c in A8.items():
            o[n.rstrip("_") + acc] = _mem(half + c, 1)
        o["st" + acc] = _mem(half + 7, noimm=True)
    for base, names in ((0x83, ["subd"]), (0x8c, ["cmpx", "cpx"]), (0x8e, ["ldx"]), (0xc3, ["addd"]),
                        (0xcc, ["ldd"]), (0xce, ["ldu"]), (0x1083, ["cmpd"]), (0x108c, ["cmpy"]),
                        (0x108e, ["ldy"]), (0x10ce, ["lds"]), (0x1183, ["cmpu"]), (0x118c, ["cmps"])):
        for n in names:
            o[n] = _mem(base, 2)
    for base, n in ((0x8f, "stx"), (0xcd, "std"), (0xcf, "stu"), (0x108f, "sty"), (0x10cf, "sts"),
                    (0x8d, "jsr")):
        o[n] = _mem(base, noimm=True)
    for a, b in (("ldaa", "lda"), ("staa", "sta"), ("oraa", "ora"), ("ldab", "ldb"), ("stab", "stb"),
                 ("orab", "orb")):
        o[a] = o[b]

    # 6309 additions
    for n, c in dict(oim=1, aim=2, eim=5, tim=0xb).items():
        h[n] = Op(IMMEM, dir=c, idx=0x60 + c, ext=0x70 + c)
    for n, c in dict(sexw=0x14, pshsw=0x1038, pulsw=0x1039, pshuw=0x103a, puluw=0x103b).items():
        h[n] = Op(INH, inh=c)
    for i, n in enumerate("addr adcr subr sbcr andr orr eorr cmpr".split()):
        h[n] = Op(PAIRO, inh=0x1030 + i)
    for i, n in enumerate("band biand bor bior beor bieor ldbt stbt".split()):
        h[n] = Op(BITO, inh=0x1130 + i)
    h["tfm"] = Op(TFMO, inh=0x1138)
    h["bitmd"] = Op(MEMO, imm=0x113c, immsize=1)
    h["ldmd"] = Op(MEMO, imm=0x113d, immsize=1)
    for n, c in dict(subw=0, cmpw=1, sbcd=2, andd=4, bitd=5, ldw=6, eord=8, adcd=9, ord=0xa, addw=0xb).items():
        h[n] = _mem(0x1080 + c, 2)
    h["stw"] = _mem(0x1087, noimm=True)
    h["ldq"] = Op(MEMO, imm=0xcd, immsize=4, dir=0x10dc, idx=0x10ec, ext=0x10fc)
    h["stq"] = _mem(0x10cd, noimm=True)
    for half, acc in ((0x1180, "e"), (0x11c0, "f")):
        for n, c in dict(sub=0, cmp=1, ld=6, add=0xb).items():
            h[n + acc] = _mem(half + c, 1)
        h["st" + acc] = _mem(half + 7, noimm=True)
    h["divd"] = _mem(0x118d, 1)
    h["divq"] = _mem(0x118e, 2)
    h["muld"] = _mem(0x118f, 2)
    return o, h


OPS6809, _H = tables()
OPS6309 = dict(_H)
OPS6309.update(OPS6809)
ONLY6309 = set(_H)
OPS = {9: OPS6809, 3: OPS6309}

REGS6809 = "cc a b dp x y u s pc d pcr".split()
REGS6309 = REGS6809 + "e f w q v".split()
REGS = {9: set(REGS6809), 3: set(REGS6309)}

TFR = dict(d=0, x=1, y=2, u=3, s=4, pc=5, w=6, v=7, a=8, b=9, cc=10, dp=11, e=14, f=15)
WIDE = set("d x y u s pc w v".split())
STACKBIT = dict(cc=0x01, a=0x02, b=0x04, dp=0x08, x=0x10, y=0x20, u=0x40, s=0x40, pc=0x80, d=0x06)
TFMREG = dict(d=0, x=1, y=2, u=3, s=4)
IDXBITS = dict(x=0x00, y=0x20, u=0x40, s=0x60)
ACCOFF = dict(a=0x86, b=0x85, d=0x8b, e=0x87, f=0x8a, w=0x8e)


# An evaluated operand is one of
#   ("e",)                      empty
#   ("v", int or None, prefix)  a value; prefix in "", "#", "<<", "<", ">"; None: undefined
#   ("r", name, mod)            register; mod in "", "+", "++", "-"(pre), "--"(pre), "p-"(post)
#   ("l", [operands])           bracketed list
#   ("x",)                      a defined value with no integer meaning

class Err(Exception):
    """Must be rejected: level 'syntax' or 'range'."""
    def __init__(self, level="syntax"):
        Exception.__init__(self, level)
        self.level = level


class DontCare(Exception):
    """The property says nothing about this operand form."""


def opbytes(code):
    return bytes([code >> 8, code & 255]) if code > 255 else bytes([code])


def be(v, n):
    return (v & ((1 << (8 * n)) - 1)).to_bytes(n, "big")


def s16(v):
    v &= 0xffff
    return v - 0x10000 if v & 0x8000 else v


def encode(isa, mnem, ops, pc, dp, strict=True):
    """Machine code for the instruction at pc with direct page dp (None: none).

    Returns (bytes, warning) where warning is None, "illegal" or "inefficient".
    Raises Err if it must be rejected, DontCare (only if strict) if unspecified."""
    op = OPS[isa][mnem]
    dc = DontCare if strict else None

    def unspecified():
        if strict:
            raise DontCare()

    k = op.kind
    if k == INH:
        if ops:
            raise Err()
        return opbytes(op.inh), None
    if k == REL:
        if len(ops) != 1 or ops[0][0] != "v" or ops[0][2] == "#":
            raise Err()
        head = opbytes(op.inh)
        if ops[0][2] in ("<", "<<"):
            unspecified()
        if ops[0][1] is None:
            return head + bytes(op.rel), None
        d = s16(ops[0][1] - (pc + len(head) + op.rel))
        if op.rel == 1:
            if not -128 <= d <= 127:
                raise Err("range")
            return head + be(d, 1), None
        d8 = s16(ops[0][1] - (pc + len(head) + 1))
        return head + be(d, 2), ("inefficient" if -128 <= d8 <= 127 and ops[0][2] != ">" else None)
    if k == STK:
        if not ops:
            unspecified()
        b = 0
        for o in ops:
            if o[0] == "v" and o[1] is None:
                continue                # not yet defined
            if o[0] != "r" or o[2] or o[1] == op.arg or o[1] not in STACKBIT:
                raise Err()
            b |= STACKBIT[o[1]]
        return opbytes(op.inh) + bytes([b]), None
    if k == PAIRO:
        if len(ops) != 2:
            raise Err()
        nib, wide, warn, rng = [], [], None, False
        for o in ops:
            if o[0] == "v":
                if o[1] is None:
                    nib.append(0)
                    wide.append(None)
                    continue
                if o[2]:
                    raise DontCare()
                if o[1] == 0 and isa == 3:
                    nib.append(12)
                else:
                    warn = "illegal"
                    rng |= not 0 <= o[1] <= 15
                    nib.append(o[1] & 15)
                wide.append(None)
                continue
            if o[0] != "r" or o[2] or o[1] not in TFR:
                raise Err()
            nib.append(TFR[o[1]])
            wide.append(o[1] in WIDE)
        if rng:
            raise Err("range")
        if None not in wide and wide[0] != wide[1]:
            warn = "illegal"
        return opbytes(op.inh) + bytes([nib[0] << 4 | nib[1]]), warn
    if k == TFMO:
        if len(ops) != 2:
            raise Err()
        nib, warn, rng, undef = [], None, False, False
        for o in ops:
            if o[0] == "v" and o[1] is None:
                undef = True
                nib.append(0)
                continue
            if o[0] == "v":
                warn = "illegal"
                rng |= not 0 <= o[1] <= 4
                nib.append(o[1] & 15)
                continue
            if o[0] != "r" or o[1] not in TFMREG:
                raise Err()
            nib.append(TFMREG[o[1]])
        if undef:
            if rng:
                raise Err("range")
            return opbytes(op.inh) + bytes([nib[0] << 4 | nib[1]]), warn
        m = {("+", "+"): 0, ("p-", "p-"): 1, ("+", ""): 2, ("", "+"): 3}.get((ops[0][2], ops[1][2]))
        if m is None:
            raise Err()
        if rng:
            raise Err("range")
        return opbytes(op.inh + m) + bytes([nib[0] << 4 | nib[1]]), warn
    if k == BITO:
        if len(ops) != 4:
            raise Err()
        warn, rng = None, False
        if ops[0][0] == "v":
            b = 0xc0
            if ops[0][1] is not None:
                if ops[0][2]:
                    unspecified()
                warn = "illegal"
                rng = not 0 <= ops[0][1] <= 3
                b = (ops[0][1] & 3) << 6
        elif ops[0][0] == "r" and not ops[0][2] and ops[0][1] in ("cc", "a", "b"):
            b = dict(cc=0, a=0x40, b=0x80)[ops[0][1]]
        else:
            raise Err()
        for o, sh in ((ops[1], 3), (ops[2], 0)):
            if o[0] != "v":
                raise Err()
            if o[2]:
                unspecified()
            if o[1] is None:
                continue
            if 0 <= o[1] <= 7:
                b |= o[1] << sh
            else:
                rng = True
        if ops[3][0] != "v":
            raise Err()
        if ops[3][2] not in ("", "<"):
            unspecified()
        if rng:
            raise Err("range")
        return opbytes(op.inh) + bytes([b]) + be(ops[3][1] or 0, 1), warn
    if k == IMMEM:
        if not 2 <= len(ops) <= 3:
            raise Err()
        if ops[0][0] != "v":
            raise Err()
        if ops[0][2] != "#":
            # would-be immediate without #: unspecified unless the rest is wrong anyway
            unspecified()
        return _address(isa, op, ops[1:], pc, dp, be(ops[0][1] or 0, 1), unspecified)
    # MEMO, LEAO
    if op.imm is not None and len(ops) >= 1 and ops[0][0] in "vx" and (ops[0] + ("", ""))[2] == "#":
        if len(ops) != 1 or ops[0][0] == "x":
            raise Err()
        return opbytes(op.imm) + be(ops[0][1] or 0, op.immsize), None
    if op.idx is None:   # immediate only
        raise Err()
    return _address(isa, op, ops, pc, dp, b"", unspecified)


def _address(isa, op, ops, pc, dp, extra, unspecified):
    if not 1 <= len(ops) <= 2:
        raise Err()
    o = ops[0]
    if len(ops) == 2:
        return _indexed(isa, op, False, ops[0], ops[1], pc, extra, unspecified)
    if o[0] == "l":
        l = o[1]
        if len(l) == 1:
            i = l[0]
            if i[0] != "v" or i[2] not in ("", ">"):
                raise Err()
            return opbytes(op.idx) + extra + b"\x9f" + be(i[1] or 0, 2), None
        if len(l) == 2:
            return _indexed(isa, op, True, l[0], l[1], pc, extra, unspecified)
        raise Err()
    if o[0] != "v" or o[2] == "#" or o[2] == "<<":
        raise Err()
    if op.dir is None:       # LEA with a plain address
        if o[2] == "<":
            raise Err()
        unspecified()
        return opbytes(op.idx) + extra + b"\x8f" + be(o[1] or 0, 2), "illegal"
    if o[1] is None:
        if o[2] == "<":   # size not yet known: assumed extended
            pass
        return opbytes(op.ext) + extra + be(pc, 2), None
    a = o[1] & 0xffff
    if o[2] == "<" or (o[2] == "" and dp is not None and dp == a >> 8):
        return opbytes(op.dir) + extra + be(a, 1), None
    return opbytes(op.ext) + extra + be(a, 2), None


def _indexed(isa, op, ind, off, idx, pc, extra, unspecified):
    head = opbytes(op.idx) + extra
    if (off[0] == "v" and off[1] is None) or (idx[0] == "v" and idx[1] is None):
        return head + b"\0", None           # undefined for now
    if idx[0] != "r" or off[0] in "lx":
        raise Err()
    if off[0] == "v" and off[2] == "#":
        raise Err()
    r, mod = idx[1], idx[2]
    ib = 0x10 if ind else 0
    if r in IDXBITS:
        sel = IDXBITS[r]
        if mod:
            if mod == "p-":
                raise Err()
            if off[0] == "v" and off[1] == 0 and off[2] == "":
                if mod in ("-", "--"):
                    unspecified()
                    raise Err()
            elif off[0] != "e":
                raise Err()
            pb = {"+": 0x80, "++": 0x81, "-": 0x82, "--": 0x83}[mod]
            return head + bytes([pb | sel | ib]), ("illegal" if ind and mod in "+-" else None)
        if off[0] == "e":
            return head + bytes([0x84 | sel | ib]), None
        if off[0] == "r":
            if off[2] or off[1] not in ACCOFF or (off[1] in "efw" and isa != 3):
                raise Err()
            return head + bytes([ACCOFF[off[1]] | sel | ib]), None
        v, p = off[1], off[2]
        if p == "<<":
            if ind:
                raise Err()
            if not -16 <= v <= 15:
                unspecified()
            return head + bytes([sel | (v & 31)]), None
        if p == "<":
            if not -128 <= v <= 127:
                unspecified()
            return head + bytes([0x88 | sel | ib]) + be(v, 1), None
        if p == ">":
            return head + bytes([0x89 | sel | ib]) + be(v, 2), None
        if v == 0:
            return head + bytes([0x84 | sel | ib]), None
        if -16 <= v <= 15 and not ind:
            return head + bytes([sel | (v & 31)]), None
        if -128 <= v <= 127:
            return head + bytes([0x88 | sel | ib]) + be(v, 1), None
        return head + bytes([0x89 | sel | ib]) + be(v, 2), None
    if r == "w" and isa == 3:
        base = {"": 0x8f, "++": 0xcf, "--": 0xef}.get(mod)
        if base is None:
            raise Err()
        wi = 1 if ind else 0
        if off[0] == "e":
            return head + bytes([base + wi]), None
        if off[0] == "v" and not mod:
            if off[2] in ("<", "<<"):
                raise Err()
            if off[1] == 0 and off[2] == "":
                return head + bytes([0x8f + wi]), None
            return head + bytes([0xaf + wi]) + be(off[1], 2), None
        if off[0] == "v" and off[1] == 0:
            unspecified()
        raise Err()
    if r in ("pc", "pcr"):
        if mod:
            raise Err()
        if off[0] == "e":
            unspecified()
            return head + bytes([0x8c | ib, 0]), None
        if off[0] == "r" or off[2] == "<<":
            raise Err()
        at = pc + len(head)         # address of the postbyte
        d8 = s16(off[1] - (at + 2)) if r == "pcr" else off[1]
        d16 = off[1] - (at + 3) if r == "pcr" else off[1]
        if off[2] == "<":
            if not -128 <= d8 <= 127:
                unspecified()
            return head + bytes([0x8c | ib]) + be(d8, 1), None
        if off[2] == "" and -128 <= d8 <= 127:
            return head + bytes([0x8c | ib]) + be(d8, 1), None
        return head + bytes([0x8d | ib]) + be(d16, 2), None
    raise Err()
