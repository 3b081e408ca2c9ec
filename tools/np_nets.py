"""np_nets.py OUT: network archives written by NumPy, with the network each describes (layers -1: describes none).
Record: u32 length, archive; i32 layers; i32 sizes[layers+1]; i32 activation index[layers]; f32 parameters (per layer bias, weight)."""
import sys, io, struct, itertools, warnings
import numpy as np
warnings.simplefilter("ignore")
ACT = ["sigmoid", "tanh", "relu", "linear", "softplus", "softsign", "hard_sigmoid", "exponential", "softmax"]
out = open(sys.argv[1], "wb"); n = 0
def emit(arrs, kw, comp, desc):
    global n
    b = io.BytesIO(); (np.savez_compressed if comp else np.savez)(b, *arrs, **kw); f = b.getvalue()
    out.write(struct.pack("<I", len(f)) + f)
    if desc is None: out.write(struct.pack("<i", -1))
    else:
        sz, ac, par = desc
        out.write(struct.pack("<i", len(ac)) + struct.pack("<%di" % len(sz), *sz) + struct.pack("<%di" % len(ac), *ac) + b"".join(p.tobytes() for p in par))
    n += 1
def net(sz, seed):
    r = np.random.RandomState(seed); w = []; par = []
    for i, o in zip(sz, sz[1:]):
        a = r.uniform(-1, 1, (i, o)).astype("f4"); b = r.uniform(-1, 1, o).astype("f4"); w += [a, b]; par += [b, a]
    return w, par
seed = 0
for L in (1, 2, 3):
    for sz in itertools.product((2, 5, 17), repeat=L + 1):
        if L == 3 and (sz[0] + 2 * sz[1] + 3 * sz[2] + sz[3]) % 3: continue
        for comp in (0, 1):
            seed += 1; w, par = net(sz, seed); ac = [(seed + 2 * i) % 9 for i in range(L)]
            for pos in sorted({0, 1, L, 2 * L}):
                a = list(w); a.insert(pos, np.array([ACT[k] for k in ac], dtype="S")); emit(a, {}, comp, (sz, ac, par))
            a = list(w); a.insert(seed % (2 * L + 1), np.array([ACT[k] for k in ac], dtype="S40")); emit(a, {}, comp, (sz, ac, par))
            emit(w, {}, comp, (sz, [3] * L, par))
            for k in range(L): a = list(w); a.append(np.array([ACT[x] for x in ac[:k]], dtype="S20")); emit(a, {}, comp, (sz, ac[:k] + [3] * (L - k), par))
            emit(w, {"names": np.array([ACT[k].encode() for k in ac])}, comp, (sz, ac, par))
            if L == 1: emit([], {"w": w[-2], "b": w[-1]}, comp, (sz, [3] * L, par))
            # not networks
            names = np.array([ACT[k] for k in ac], dtype="S")
            for i in range(2 * L):
                for t in ("f8", "f2", ">f4", "i4", "U5", "c8"):
                    if (seed + i) % 3 == 0 or t in (">f4", "f8"): a = list(w) + [names]; a[i] = a[i].astype(t); emit(a, {}, comp, None)
                a = list(w) + [names]; del a[i]; emit(a, {}, comp, None)
                a = list(w) + [names]; a[i] = a[i].T if i % 2 == 0 else a[i][:, None]
                if i % 2 or sz[i // 2] != sz[i // 2 + 1]: emit(a, {}, comp, None)
                if i % 2 == 0: a = list(w) + [names]; a[i] = np.asfortranarray(a[i]); emit(a, {}, comp, None)
                a = list(w) + [names]; a[i] = a[i][1:]
                if i: emit(a, {}, comp, None)
                a = list(w) + [names]; a[i] = a[i][..., :-1]; emit(a, {}, comp, None)
            emit([names], {}, comp, None); emit(w + [names, names], {}, comp, None); emit(w + [np.array([ACT[k] for k in ac])], {}, comp, None)
            emit(w + [names.reshape(1, L)], {}, comp, None); emit(w + [np.arange(3)], {}, comp, None)
out.close()
