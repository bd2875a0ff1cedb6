# Writes charsets.h: the characters of the single-byte charsets and of GBK and Big5, from Python's own codecs.
import sys
M = [("windows-125%d" % i, "cp125%d" % i) for i in (0, 1, 2, 3, 4, 6, 7)] + [("CP866", "cp866"), ("KOI8-R", "koi8_r"), ("KOI8-U", "koi8_u")]
M += [("ISO-8859-%d" % i, "iso8859_%d" % i) for i in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16)]
def one(b, c):
    try: s = b.decode(c)
    except UnicodeDecodeError: return 0
    return ord(s) if len(s) == 1 and ord(s) < 65536 else 0
def ru(b):   # KOI8-RU is KOI8-U with the Belarusian letter
    return {0xae: 0x45e, 0xbe: 0x40e}.get(b) or one(bytes([b]), "koi8_u")
def row(v): return "{" + ",".join(map(str, v)) + "}"
o = ["// written by charsets.py", "struct Charset { const char* name; unsigned short high[128]; };", "static const Charset CHARSET[] = {"]
for n, c in M: o.append('{"%s",%s},' % (n, row(one(bytes([b]), c) for b in range(128, 256))))
o.append('{"KOI8-RU",%s},' % row(ru(b) for b in range(128, 256)))
o.append("};")
for n, c in (("CP1255", "cp1255"), ("CP1258", "cp1258")): o.append("static const unsigned short %s[128] = %s;" % (n, row(one(bytes([b]), c) for b in range(128, 256))))
open(sys.argv[1], "w").write("\n".join(o) + "\n")
