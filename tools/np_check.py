"""np_check.py DIR: NumPy reads every array the library wrote; DIR/manifest lists what it must find."""
import sys, zipfile, numpy as np
d = sys.argv[1]; bad = 0
for l in open(d + "/manifest"):
    w = l.split()
    if w[0] == "npy":
        name, t, elem, fort, nd = w[1], w[2], int(w[3]), int(w[4]), int(w[5]); shape = tuple(map(int, w[6:6 + nd]))
        try:
            a = np.load(d + "/" + name + ".npy", allow_pickle=False)
            raw = open(d + "/" + name + ".bin", "rb").read()
            ok = a.dtype.str[1] == t and a.dtype.itemsize == elem and a.shape == shape and a.tobytes(order="F" if fort else "C") == raw
            if ok and a.size > 1 and a.ndim > 1 and min(sorted(shape)[-2:]) > 1: ok = a.flags.f_contiguous == bool(fort) and a.flags.c_contiguous == (not fort)
            what = "%s %s" % (a.dtype.str, a.shape)
        except Exception as e: ok = False; what = repr(e)
        if not ok: bad += 1; print("BAD %s: expected %s%d %s fortran=%d, NumPy found %s" % (name, t, elem, shape, fort, what))
    else:   # npz name method entry...
        name, method, want = w[1], int(w[2]), w[3:]
        try:
            z = np.load(d + "/" + name + ".npz", allow_pickle=False); zf = zipfile.ZipFile(d + "/" + name + ".npz")
            got = [i.filename for i in zf.infolist()]
            ok = got == want and all(i.compress_type == method for i in zf.infolist()) and zf.testzip() is None
            what = str(got) + str([i.compress_type for i in zf.infolist()])
            for k in got:
                a = z[k]; raw = open(d + "/" + name + "." + k.replace("/", "_") + ".bin", "rb").read()
                if a.tobytes() != raw: ok = False; what = "other bytes in " + k
        except Exception as e: ok = False; what = repr(e)
        if not ok: bad += 1; print("BAD %s: expected %s, NumPy found %s" % (name, want, what))
print("checked, %d bad" % bad)
sys.exit(1 if bad else 0)
