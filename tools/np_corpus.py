"""np_corpus.py OUT: arrays and archives written by NumPy itself, with what they contain.
Record: u32 name length, name; u32 file length, file; u8 type, u32 element size, u8 fortran, u8 ndim, u64 shape[ndim], u64 bytes, bytes."""
import sys, io, struct, warnings
import numpy as np
warnings.simplefilter("ignore")
out = open(sys.argv[1], "wb")
n = 0
def emit(a, fortran):
    global n
    b = io.BytesIO(); np.lib.format.write_array(b, a, version=(1, 0)); f = b.getvalue()
    raw = a.tobytes(order="F" if fortran else "C")
    t = a.dtype.str
    out.write(struct.pack("<I", len(f)) + f + struct.pack("<BIBB", ord(t[1]), a.dtype.itemsize, fortran, a.ndim) + struct.pack("<%dQ" % a.ndim, *a.shape) + struct.pack("<Q", len(raw)) + raw)
    n += 1
shapes = [(), (0,), (1,), (5,), (64,), (3, 4), (0, 3), (3, 0), (1, 1), (7, 5), (2, 3, 4), (1, 0, 2), (2, 1, 3, 1), (1, 2, 1, 2, 1), (2,) * 6, (1, 2) * 3 + (3,), (1,) * 8, (2,) * 8, (1000,), (33, 31)]
for t in ["f2", "f4", "f8", "f16", "i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "c8", "c16", "c32", "b1", "S1", "S5", "S31", "S80", ">f4", ">i2", ">c8", "V3"]:
    for s in shapes:
        k = int(np.prod(s)) if s else 1
        d = np.dtype(t)
        raw = bytes((i * 37 + 11) % 251 for i in range(k * d.itemsize))
        if d.kind == "b": raw = bytes(x & 1 for x in raw)
        a = np.frombuffer(raw, dtype=d, count=k).reshape(s) if raw else np.zeros(s, d)
        emit(a, False)
        f = np.asfortranarray(a)
        if f.flags.f_contiguous and not f.flags.c_contiguous: emit(f, True)
out.close()
open(sys.argv[1] + ".n", "w").write(str(n))
