"""Independent, strict decoders for the output formats.  Each returns
(blocks, exec) with blocks a list of (addr, bytes); Bad on any malformation."""


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def hexb(s):
    need(len(s) % 2 == 0 and all(c in "0123456789ABCDEF" for c in s), "not upper case hex: " + s[:20])
    return bytes.fromhex(s)


def srec(data):
    t = data.decode("latin-1")
    need(t.endswith("\n"), "no final newline")
    blocks, end = [], None
    for l in t[:-1].split("\n"):
        need(end is None, "record after terminator")
        need(l[:1] == "S" and len(l) >= 10, "bad record " + l)
        b = hexb(l[2:])
        need(b[0] == len(b) - 1, "bad record length " + l)
        need(sum(b) & 0xff == 0xff, "bad checksum " + l)
        a = b[1] << 8 | b[2]
        if l[1] == "1":
            need(b[0] > 3, "empty data record")
            need(a + len(b) - 4 <= 0x10000, "record beyond 64K")
            blocks.append((a, b[3:-1]))
        elif l[1] == "9":
            need(b[0] == 3, "S9 with data")
            end = a
        else:
            raise Bad("record type " + l)
    need(end is not None, "no S9 record")
    return blocks, end


def ihex(data):
    t = data.decode("latin-1")
    need(t.endswith("\n"), "no final newline")
    blocks, end = [], None
    for l in t[:-1].split("\n"):
        need(end is None, "record after terminator")
        need(l[:1] == ":", "bad record " + l)
        b = hexb(l[1:])
        need(len(b) >= 5 and b[0] == len(b) - 5, "bad record length " + l)
        need(sum(b) & 0xff == 0, "bad checksum " + l)
        a = b[1] << 8 | b[2]
        if b[3] == 0:
            need(b[0] > 0, "empty data record")
            need(a + b[0] <= 0x10000, "record beyond 64K")
            blocks.append((a, b[4:-1]))
        elif b[3] == 1:
            need(b[0] == 0, "end record with data")
            end = a
        else:
            raise Bad("record type " + l)
    need(end is not None, "no end record")
    return blocks, end


def coco(d):
    blocks, p = [], 0
    while True:
        need(p + 5 <= len(d), "truncated")
        t, n, a = d[p], d[p + 1] << 8 | d[p + 2], d[p + 3] << 8 | d[p + 4]
        p += 5
        if t == 0xff:
            need(n == 0, "postamble length")
            need(p == len(d), "bytes after postamble")
            return blocks, a
        need(t == 0, "block type %d" % t)
        need(n > 0, "empty block")
        need(p + n <= len(d), "truncated block")
        need(a + n <= 0x10000, "block beyond 64K")
        blocks.append((a, bytes(d[p:p + n])))
        p += n


def dragondos(d):
    need(len(d) >= 9 and d[0] == 0x55 and d[1] == 2 and d[8] == 0xaa, "bad header")
    a, n, e = d[2] << 8 | d[3], d[4] << 8 | d[5], d[6] << 8 | d[7]
    need(len(d) == 9 + n, "length field")
    need(a + n <= 0x10000, "beyond 64K")
    return [(a, bytes(d[9:]))] if n else [], e


def image(blocks):
    im = {}
    for a, b in blocks:
        for i, x in enumerate(b):
            need(a + i not in im, "address $%04X twice" % (a + i))
            im[a + i] = x
    return im


def merge(blocks):
    """Adjacent blocks merged; must be ascending."""
    out = []
    for a, b in blocks:
        if out:
            need(a >= out[-1][0] + len(out[-1][1]), "blocks not ascending")
        if out and out[-1][0] + len(out[-1][1]) == a:
            out[-1] = (out[-1][0], out[-1][1] + b)
        else:
            out.append((a, b))
    return out
