"""Writes the shape tables (X-macros) a check instantiates the library's templates with: a fixed base plus shapes
drawn from the seed."""
import random

def emit(path, seed, tier):
    r = random.Random(f"shapes-{seed}-{tier}")
    th = tier == "thorough"
    out = []
    def mac(name, rows):
        rows = list(dict.fromkeys(rows))
        small = [t for k, t in enumerate(rows) if max(t) <= 3 or (k % 7 == 3 and max(t) <= 20) or (name.startswith("AO_") and max(t) <= 17 and k % 2)] # for element types that repeat others
        out.append("#ifdef VSMALL\n#define %s(X) %s\n#else" % (name, " ".join("X(%s)" % ",".join(map(str, t)) for t in small)))
        out.append("#define %s(X) %s" % (name, " ".join("X(%s)" % ",".join(map(str, t)) for t in rows)) + "\n#endif")
    # ---- i x j
    s2 = [(i, j) for i in range(1, 7) for j in range(1, 7)]
    for k in list(range(7, 18)) + [20, 24, 31, 32, 33, 40, 63, 64, 65]:
        s2 += [(1, k), (k, 1), (2, k), (k, 3)]
    s2 += [(7, 7), (8, 8), (7, 9), (9, 8), (8, 12), (12, 8), (10, 10), (16, 16), (15, 17), (17, 15), (16, 4), (4, 16), (32, 32), (33, 31), (50, 50), (64, 64), (100, 100), (128, 128), (129, 127), (150, 20), (257, 258), (257, 257), (9, 9), (11, 11), (12, 12), (17, 17), (33, 33), (65, 65)]
    for k in (48, 96, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 513, 1025):
        s2 += [(1, k), (k, 1), (k, 2), (3, k)]
    s2 += [(1, k) for k in range(18, 40)]  # every remainder of an unrolled loop
    s2 += [(1, 65537), (65537, 1)]  # beyond 16 bit indices
    for _ in range(60 if th else 14):
        s2.append((r.randint(1, 20), r.randint(1, 20)))
    for _ in range(20 if th else 4):
        s2.append((r.randint(1, 70), r.randint(1, 70)))
    mac("SHAPES2", s2)
    # fewer shapes for expensive instantiations
    s2s = [(i, j) for i in range(1, 6) for j in range(1, 6)] + [(1, 8), (8, 1), (7, 2), (2, 9), (6, 6), (7, 7), (8, 8), (9, 9), (10, 10), (8, 12), (12, 7), (16, 16), (17, 3), (3, 17), (1, 33), (33, 1), (20, 20), (32, 32), (64, 64), (100, 100), (128, 128), (1, 65), (65, 2), (3, 129), (1, 129), (257, 1), (2, 257), (1, 1025), (130, 4), (257, 258), (1, 65537), (65537, 1)]
    for _ in range(30 if th else 8):
        s2s.append((r.randint(1, 16), r.randint(1, 16)))
    for _ in range(6 if th else 2):
        s2s.append((r.randint(10, 70), r.randint(10, 70)))
    mac("SHAPES2S", s2s)
    mac("SHAPES2V", [(a, b) for a, b in s2s if a >= 3 and b >= 3])
    # ---- n x m x p
    s3 = [(n, m, p) for n in (1, 2, 3, 4) for m in (1, 2, 3, 4) for p in (1, 2, 3, 4)]
    for k in list(range(5, 18)) + [31, 32, 33, 64, 65, 127, 128, 129, 257]:
        s3 += [(k, 2, 3), (2, k, 3), (3, 2, k)]
    s3 += [(n, n, n) for n in list(range(5, 13)) + [16, 17, 20, 32, 33, 50, 64, 65]]
    s3 += [(5, 7, 6), (8, 4, 8), (9, 8, 7), (16, 8, 4), (4, 8, 16), (1, 100, 1), (100, 1, 100), (12, 5, 12), (70, 40, 30), (1, 300, 2), (1, 1025, 1), (130, 3, 130), (100, 100, 100), (1, 65537, 1), (65537, 1, 1), (1, 1, 65537)]
    s3 += [(1, k, 1) for k in range(5, 41)]
    for _ in range(60 if th else 16):
        s3.append((r.randint(1, 13), r.randint(1, 13), r.randint(1, 13)))
    for _ in range(12 if th else 3):
        s3.append((r.randint(1, 48), r.randint(1, 48), r.randint(1, 48)))
    if th: s3 += [(100, 100, 100), (128, 128, 128)]
    mac("SHAPES3", s3)
    # ---- n x n
    sq = [(n,) for n in list(range(1, 13)) + [14, 15, 16, 17, 20, 24, 31, 32, 33, 50, 64, 65, 100, 127, 128, 129, 150, 257]]
    sq += [(r.randint(13, 60),) for _ in range(10 if th else 4)]
    mac("SQUARES", sq)
    mac("SQUARES_2UP", [t for t in sq if t[0] >= 2])
    # elimination-like algorithms: bounded by the cost of exact references
    la = [(n,) for n in list(range(1, 13)) + [14, 16, 17, 20, 33, 65] + ([13, 15, 18, 24, 32, 34, 50, 100, 129] if th else [])]
    mac("LINALG", la)
    iv = [(n,) for n in list(range(1, 9)) + [9, 10, 12, 17, 33] + ([11, 13, 14, 16, 24, 32] if th else [])]
    mac("INVSIZES", iv)
    mac("POWSIZES", [(n,) for n in list(range(1, 9)) + [10, 12, 16, 17, 33] + ([9, 11, 20, 34, 65] if th else [])])
    # ---- concatenation: vertical (i1,i2,j), i1 != i2; horizontal (i,j1,j2), j1 != j2
    def cats():
        c = [(a, b, k) for a in range(1, 6) for b in range(1, 6) for k in range(1, 5) if a != b]
        c += [(1, 9, 5), (9, 1, 5), (7, 8, 9), (8, 7, 3), (16, 3, 4), (3, 16, 17), (10, 11, 12), (32, 1, 2), (1, 33, 1), (20, 30, 10), (50, 40, 20), (128, 1, 2), (1, 129, 3), (64, 65, 2), (2, 3, 130), (257, 256, 1), (65536, 1, 1), (1, 65537, 1)]
        for _ in range(60 if th else 16):
            a, b, k = r.randint(1, 15), r.randint(1, 15), r.randint(1, 15)
            if a != b: c.append((a, b, k))
        return c
    mac("CATV", cats())
    mac("CATH", [(k, a, b) for a, b, k in cats()])
    # ---- all-operations registry (C20-C23): few shapes, every operation
    a2 = [(1, 1), (1, 5), (4, 1), (2, 2), (2, 3), (3, 3), (4, 3), (3, 5), (5, 5), (8, 7), (17, 2), (16, 16), (40, 33), (20, 13)]
    a2 += [(r.randint(1, 9), r.randint(1, 9)) for _ in range(8 if th else 2)]
    mac("AO_SHAPES2", a2)
    mac("AO_SQUARES", [(n,) for n in [1, 2, 3, 4, 5, 6, 8, 12, 17] + ([7, 9, 10] if th else [])])
    # large ones: thresholds on sizes (stack against heap, blocking) lie here; rare, not under valgrind
    mac("AO_BIG2", [(70, 65), (128, 128), (1, 1025), (257, 2), (1, 65537), (65537, 1)] + [(r.randint(33, 130), r.randint(33, 130)) for _ in range(4 if th else 1)])
    mac("AO_BIGSQ", [(n,) for n in [33, 65, 100] + ([64, 129] if th else [])])
    mac("AO_BIG3", [(65, 66, 64), (100, 100, 100), (2, 600, 3)])
    mac("AO_BIGCATS", [(64, 65, 66), (1, 130, 70)])
    mac("AO_SHAPES3", [(1, 1, 1), (1, 4, 1), (2, 2, 2), (2, 3, 4), (3, 3, 3), (4, 4, 4), (5, 1, 5), (5, 7, 3), (8, 8, 8), (16, 16, 16), (33, 34, 35)] + [(r.randint(1, 9), r.randint(1, 9), r.randint(1, 9)) for _ in range(6 if th else 2)])
    mac("AO_CATS", [(1, 2, 1), (1, 2, 3), (3, 2, 2), (4, 1, 5), (5, 6, 3), (2, 7, 4), (20, 21, 30)])
    mac("LAWSHAPES", [(n, n, n) for n in (1, 2, 3, 4, 5, 8)] + [(1, 4, 2), (3, 1, 5), (2, 3, 4), (4, 3, 2), (6, 2, 7), (7, 5, 1), (12, 9, 10), (17, 16, 18)] + [(r.randint(1, 12), r.randint(1, 12), r.randint(1, 12)) for _ in range(10 if th else 3)])
    with open(path, "w") as f:
        f.write("#pragma once\n" + "\n".join(out) + "\n")

if __name__ == "__main__":
    import sys
    emit(sys.argv[1], sys.argv[2], sys.argv[3])
