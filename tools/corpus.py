"""Writes seed inputs of the coverage guided fuzzing into a directory: generated schemas of the three sizes."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import etree, proto
from vt.harness import Rand, Skip


def write(d, n, seed):
    os.makedirs(d, exist_ok=True)
    k = i = 0
    while k < n:
        i += 1
        r = Rand(seed=seed * 100003 + i)
        sz = i % 4
        kw = [dict(nfields=(1, 2), nmsgs=(0, 1), depth=1), dict(nfields=(1, 3), nmsgs=(1, 2), depth=2), dict(nfields=(2, 4), nmsgs=(1, 3), depth=3),
              dict(nfields=(1, 2), nmsgs=(0, 1), depth=3, texts=False)][sz]
        try:
            b = proto.Builder(r, proto.Opt(**kw)).build()
        except Skip:
            continue
        doc = proto.section_doc(b)
        t = etree.render(doc, etree.Noisy(r) if i % 3 == 0 else None)
        if i % 7 == 0 and len(b.decls) > 1:
            h = len(b.decls) // 2
            t = etree.render(proto.section_doc(b, b.decls[:h])) + "<!--NEXT-->" + etree.render(proto.section_doc(b, b.decls[h:], first=False))
        if len(t) > 7000:
            continue
        with open(os.path.join(d, "s%04d" % k), "wb") as f:
            f.write(t.encode())
        k += 1


if __name__ == "__main__":
    write(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]))
