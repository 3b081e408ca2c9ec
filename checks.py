"""What decides each property: harnesses, configurations, bounds."""
import os
ISA = ["sse", "avx", "avx2", "avx512"]
def J(src, config, **kw): return dict(src=src if isinstance(src, list) else [src], config=config, **kw)
CHECKS = {}
SCALE = {  # suites over the sizes 2^k-1, 2^k, 2^k+1
    "N01": "1025 (4097) layers, 2^17 (2^19) wide", "N02": "batches and widths to 2^18", "N03": "513 (1025) layers, 2^16 (2^18) wide", "N04": "vectors to 2^20 (2^22)", "N05": "vectors to 2^20 (2^22)", "N06": "vectors to 2^18 (2^20)",
    "N07": "vectors to 2^20 (2^22)", "N08": "vectors to 2^20 (2^22)", "K01": "1025 (4097) layers, 2^19 wide", "K02": "1025 (2049) layers, 2^17 (2^20) wide", "K03": "1025 layers, 2^18 (2^21) wide", "K04": "layers to 2^15", "S01": "1025 layers, 2^18 (2^20) wide",
    "S02": "sparse files beyond 2 and 4 GB", "S03": "lists of 513 (1025) arrays saved, 2^20 (2^22) freed", "S04": "2^15 wide", "S05": "sizes right only modulo 2^32 or 2^64", "T01": "data sets to 2^17 (2^20) in batches of as many",
    "T02": "140001 mini-batches in an epoch", "T03": "140001 mini-batches in an epoch", "T04": "140001 mini-batches in an epoch", "T05": "1025 (4097) metrics, 2^26 (2*10^8) samples" }
def check(pid, jobs, level, technique, note, rule="", bounds="", assumptions=(), **kw):
    if pid in SCALE: bounds += "; 2^k-1, 2^k, 2^k+1: " + SCALE[pid]
    CHECKS[pid] = dict(jobs=jobs if callable(jobs) else (lambda tier, j=jobs: j), level=level, technique=technique, note=note, rule=rule,
                       bounds=bounds, assumptions=list(assumptions), **kw)

check("N01", [J("n01_forward.c", ISA + ["asan"])], "exploration",
      "exhaustive bounded enumeration of shapes, entry kinds, alignments and activations on the real code (stateless exploration), double reference",
      "every size/entry-kind/alignment/activation combination within the stated bounds is executed in every instruction-set build",
      rule="each execution is one (network, input, buffer placement); distinct by construction of the choice tree; non-trivial if the output vector is non-empty",
      bounds="see the suites: widths 1..72 with every entry kind, depth up to 4 over SIMD-relevant sizes, depth up to 7 narrow, all activation assignments to depth 4; integer networks of depth 1..3 times every fourth power of two from 2^-68 to 2^52, exact")

check("N02", [J("n02_batch.c", ISA + ["blas", "asan"])], "exploration",
      "exhaustive bounded enumeration of batches, widths, alignments on the real code, double and single-prediction reference",
      "every batch size/width/alignment/activation combination within the bounds is executed in every build",
      rule="one execution = one (network, batch, placement); distinct by construction; non-trivial if the batch is non-empty",
      bounds="0..19 samples x widths 1..40 x depths 1..3; 16 output alignments; all activation assignments to depth 3; batches up to 4099 samples and widths up to 131073; 2^31 input values; widths times samples of 2^31; teams of 1..9 (17) threads: direct, within and nested in a parallel region of the caller; integer networks of depth 1..3 times every fourth power of two from 2^-68 to 2^52, exact")

check("N03", [J("n03_backprop.c", ISA + ["blas", "asan"])], "exploration",
      "exhaustive bounded enumeration of networks, loss/activation pairs and samples on the real code, independent double-precision gradient",
      "every shape/activation/loss combination within the bounds is executed in every build and compared element by element",
      rule="one execution = one (network, loss, sample); distinct by construction; non-trivial if no value sits on a kink (then all partial derivatives are compared)",
      bounds="all size vectors over 10..15 SIMD-relevant sizes to depth 3, all loss/activation assignments to depth 3, all entry classes of small inputs, depth 5 over 4 sizes; inputs of every magnitude down to 2^-36 and errors down to 2^-50 (relative tolerance)")

ENUM = "exhaustive bounded enumeration of executions of the real code (stateless exploration) against an independent double-precision reference"
check("N04", [J("n04_activations.c", ISA + ["asan"], cflags="-DPART=4")], "exploration", ENUM,
      "every float prefix (thorough: every finite float) through the wide and the tail code path of every build; every length x alignment",
      rule="one evaluation = one (activation, float, code path) or (activation, length, alignment, position); inputs counted once per build; all are distinct by construction",
      bounds="quick: all 2^24 float prefixes with smallest and largest low byte; thorough: all finite floats; lengths 0..70 x 16 alignments")
check("N05", [J("n04_activations.c", ISA + ["asan"], cflags="-DPART=5")], "exploration", ENUM,
      "every activation output reachable from the enumerated floats is fed to the derivative in every build, plus every length and pair of alignments",
      rule="one evaluation = one (activation, reachable output, incoming value, code path); distinct inputs by construction",
      bounds="outputs of all 2^24 float prefixes x 2 low bytes (thorough: of all finite floats); lengths 0..70 x 16 x 5 (thorough 16 x 16) alignments")
check("N06", [J("n04_activations.c", ISA + ["asan"], cflags="-DPART=6")], "exploration", ENUM,
      "every vector over the value alphabet, every length, maximum position and alignment within the bounds, in every build",
      rule="one evaluation = one softmax element; non-trivial when the vector has more than one element; vectors distinct by construction",
      bounds="all vectors of 15 values to length 3 (9, thorough 15, at length 4), all assignments of 3 values at lengths 8..9 (11), lengths 1..70 x position x 16 alignments x 5 backgrounds")
check("N07", [J("n07_loss.c", ISA + ["asan"], cflags="-DPART=7")], "exploration", ENUM,
      "every prediction/target pair over the alphabet, every length with a special pair at every position, every one-edit misspelling of a name, in every build",
      rule="one evaluation = one gradient element (or one name); vectors distinct by construction",
      bounds="all pairs of 16 values at lengths 1..2, 8 (11) values at length 3; lengths 1..70 (140) x position x 4 special pairs x 3 backgrounds x 4 alignments; lengths 1000, 4097, 65537")
check("N08", [J("n07_loss.c", ISA + ["asan"], cflags="-DPART=8")], "exploration", ENUM,
      "every prediction/target pair over the alphabet, every length with a special pair at every position, every one-edit misspelling of a name, in every build",
      rule="one evaluation = one metric value (or one name); vectors distinct by construction",
      bounds="all pairs of 16 values at lengths 1..2, 8 (11) values at length 3; lengths 1..70 (140) x position x 4 special pairs x 3 backgrounds x 4 alignments; lengths 1000, 4097, 65537")
REAL = "exhaustive bounded enumeration of executions of the real code (stateless exploration)"
check("K01", [J("k01_create.c", ["sse", "avx", "best", "asan"], cflags="-DPART=1", alloc=True)], "fault_enumeration",
      "exhaustive enumeration of descriptions and of every allocation-failure point on the real code, leak accounting, AddressSanitizer build",
      "every size vector over the alphabet, every activation assignment, every allocation failing in turn",
      rule="one evaluation = one (description, failing allocation); distinct by construction", bounds="layer counts -1..4 over 8 sizes incl. 0, negative and INT_MIN; 7 activation names to depth 4; products around 2^31 and 2^32; every single allocation failure for depths 1..4 (5)",
      assumptions=["allocation failures are injected at the allocator's entry points"])
check("K02", [J("k01_create.c", ISA + ["blas", "asan"], cflags="-DPART=2")], "exploration", REAL + ", memory-image reference",
      "every size vector over the alphabet to depth 3 (4), every layer up to 20x40 at every alignment, every update sequence to depth 4 (6), in every build",
      rule="one evaluation = one parameter compared bit for bit after the last update; non-trivial executions are distinct (shape, alignment, update sequence)",
      bounds="14 sizes to depth 2, 9 (14) at depth 3; layers 1..20 x 1..40 x 16 alignments; update sequences of 4 kinds to depth 4 (6) x 16 alignments; six kinds of update down to steps of 10^-30")
check("K03", [J("k01_create.c", ["sse", "best", "asan"], cflags="-DPART=3")], "exploration",
      "exhaustive enumeration of random-generator outcome sequences and initialisation histories on the real code (generator replaced by the explorer)",
      "every sequence of 4 (6) outcomes over 10 extreme, central and typical values x activation x initializer; the whole grid of outcome pairs for the distribution; all histories to depth 3 (4)",
      rule="one evaluation = one initialisation; distinct by construction", bounds="10 outcomes ^ 4 (6) x 9 activations x 5 initializers x 3 shapes; 106x106 outcome grid x 9 x 5 x 2 layer positions; joint signs and sizes of weights at 10 distances for 4 (16) seeds; histories of up to 3 (4) earlier networks of 5 kinds",
      assumptions=["the library draws random numbers with rand()"])
check("K04", [J("k01_create.c", ["best", "sse", "asan"], cflags="-DPART=4")], "model_checking",
      "explicit-state exploration of loss-selection histories on two real networks against a last-selection model",
      "every history of selections up to the depth on two networks is executed on the real code and compared with a fresh network",
      bounds="histories to depth 3 over 7 names x 2 networks, to depth 4 (6) over 9 operations, x 9 output activations x 2 hidden activations")
def numpy_corpus(scratch, repo, here):
    import subprocess
    subprocess.run(["python3-vt", here + "/tools/np_corpus.py", scratch + "/corpus"], check=True, capture_output=True)
check("S02", [J("s02_arrays.c", ["best", "asan"], cflags="-DPART=2", alloc=True)], "exploration", REAL + "; independent parser of the format, validated against NumPy in both directions",
      "every shape over the alphabet to eight dimensions, every element type, byte order and memory order, every header length class, every interleaving of two arrays to the depth",
      rule="one evaluation = one array read back (loaded or mapped); distinct (type, shape, order, header) by construction",
      bounds="0..8 dimensions over 7/5/4/3/2 sizes incl. 0, 20 types, data sizes -70..+70 around 14 buffer and page sizes, foreign headers of every length class up to 65545 bytes, 900 arrays written by NumPy, 350 read by NumPy",
      prepare=numpy_corpus)
check("S09", [J("s02_arrays.c", ["best", "sse", "asan"], cflags="-DPART=9", alloc=True)], "exploration", REAL + "; independent parser of the format",
      "every shape over small, zero and huge sizes to eight dimensions, every element type, both orders; every builder macro with every number of dimensions",
      rule="one evaluation = one array described by header, data size and printed description; distinct by construction",
      bounds="0..8 dimensions over 9 (3 dimensions and less), 5, 3, 2 sizes up to 2^63-1 x 20 types (2 from 4 dimensions) x both orders; 16 type macros x 8 shapes x 3 forms")
check("S05", [J("s02_arrays.c", ["best", "asan"], cflags="-DPART=5", alloc=True)], "fault_enumeration",
      "exhaustive enumeration of damaged files (every truncation, every single-byte change, byte pairs, grammar of malformed headers) through the real reader, independent parser as oracle, leak/descriptor/mapping accounting, AddressSanitizer build",
      "every truncation, every value of every header byte, every combination of header parts, through loading and mapping",
      rule="one evaluation = one damaged file read once; non-trivial if it is still accepted as an array", bounds="6 valid files: all truncations; 3 (6): all single-byte changes in the first 140 bytes; byte pairs over 9 (18) values; 19x32x4x3x5x4 header combinations; missing-data amounts for all shapes over 5 sizes to 3 dimensions")
check("S01", [J("s01_archives.c", ["best", "asan"], cflags="-DPART=1", alloc=True)], "exploration", REAL + "; independent archive reader, validated against NumPy",
      "every network over the size alphabet, every activation assignment, every special bit pattern at every parameter, every file-name length around the limit, every previous content of the target",
      rule="one evaluation = one network saved, parsed independently and loaded back bit for bit; distinct networks by construction",
      bounds="depth 1..3 over 8/6/4 (6) sizes x 9 activations; all activation assignments to depth 3 (5 or 9 at depth 4); 12 bit patterns x parameter x second pattern; 5..256 layers; layers up to 3000x2999; names of 120..135 characters, 141 names that cannot be formatted; save sequences of 3 (4) over 6 kinds of previous files")
check("S03", [J("s01_archives.c", ["best", "asan"], cflags="-DPART=3", alloc=True)], "model_checking",
      "explicit-state exploration of list operation histories on the real code in lockstep with a sequence model; archives read by an independent parser and by NumPy",
      "every sequence of appends and prepends (fresh and equal names) up to the depth is executed and compared with the sequence model",
      bounds="histories to depth 6 (8) over 4 operations; 60 name forms x 3 positions, 40 that cannot be formatted x 3 positions x 2 directions; 7 targets x 3 compressions; up to 11 arrays up to 300000 bytes")
def numpy_nets(scratch, repo, here):
    import subprocess
    subprocess.run(["python3-vt", here + "/tools/np_nets.py", scratch + "/nets"], check=True, capture_output=True)
check("S04", [J("s01_archives.c", ["best", "asan"], cflags="-DPART=4", alloc=True)], "exploration", REAL + "; archives assembled by an independent writer and by NumPy",
      "every archive layout over the bounds: position, width and number of the names, storage method, every defect at every array",
      rule="one evaluation = one archive loaded and compared bit for bit (or refused); distinct by construction",
      bounds="depth 1..3 over 5/4/3 sizes x 3 storage methods x every position of the names x 0..L names x 3 widths x 3 (10) name choices; 40 defects x every array x 6 networks x every position x 2 methods; all archives of tools/np_nets.py",
      prepare=numpy_nets)
check("S06", [J("s01_archives.c", ["best", "asan"], cflags="-DPART=6", alloc=True)], "fault_enumeration",
      "exhaustive enumeration of damaged archives (every truncation from either end, every single-byte change, boundary values in every field, removed and doubled blocks) through the real loaders; leak/descriptor accounting, AddressSanitizer build",
      "every truncation, every byte, every field position is damaged, every entry breaks off at every byte; the result is used if it loads and must have been in the undamaged archive",
      rule="one evaluation = one damaged archive read as network or list; non-trivial if something still loads", bounds="5 archives: every truncation and beheading; 3 (5): every byte x 12 (256) values; 2 (5): every 2- and 4-byte field x 4..8 boundary values; blocks of 16..192 bytes removed or doubled; every 7th splice of two archives; every array of a network and of a list x every length at which its contents break off x 6 ways of breaking off x 1 or several deflate blocks")
SYS = ["system calls are intercepted by a seccomp filter of the checking process; power loss (lost page cache) is not modelled, only process death and failing calls"]
check("S07", [J("s07_faults.c", ["best", "asan"], cflags="-DPART=7", alloc=True, fio=True)], "fault_enumeration",
      "exhaustive fault injection at the system-call boundary of the real save code: every file call x {error, short, persistent error, kill before, torn, after}; independent parser decides what the target holds",
      "every file call of a save, every fault kind, with three kinds of previous target; two (three) killed saves in a row",
      rule="one evaluation = one (object, previous target, file call, fault); non-trivial if the fault was reached", bounds="6 objects (networks and lists, small and larger than any buffer, stored and deflated) x 3 previous targets x every file call x 7 fault kinds x 2 (6) error codes", assumptions=SYS)
check("S08", [J("s07_faults.c", ["best", "asan"], cflags="-DPART=8", alloc=True, fio=True)], "fault_enumeration",
      "exhaustive fault injection at the system-call and allocator boundary of the real load and save code",
      "every file call and every allocation (own, and those of the zip library) of every load and save fails in turn",
      rule="one evaluation = one (object, operation, fault); non-trivial if the fault was reached", bounds="8 objects x load/map/save x every file call x 3..4 fault kinds x 2 (5) error codes; every allocation; every pair of one file call and one own allocation for 3 objects", assumptions=SYS)
check("T01", [J("t01_train.c", ["best", "sse", "avx", "asan"], cflags="-DPART=1")], "model_checking",
      "exhaustive exploration of epoch histories on the real optimizers: every order that could explain the outcome is tried; every sequence of random-generator outcomes is executed to count how often each order occurs",
      "every history of data-set sizes x batch size x kind; every generator outcome sequence for 2..4 samples; every (samples, batch size) to 24 (40)",
      bounds="histories of 3 (4) epochs over data sets of 1..4 samples x 4 batch sizes x 4 kinds x shuffling; all outcome sequences of 2..4 samples (3 samples: 2 (3) epochs); 1..24 (40) samples x every batch size; own optimizer on exact gradient buffers for 1..12 x 5 x 5 sizes; teams of 1..9 (17) threads x 3 ways of calling",
      assumptions=["the library draws random numbers with rand()"])
for pid, part, what in (("T02", 2, "4 learning-rate decays x 4 momenta x Nesterov x 3 learning rates"), ("T03", 3, "4 decays x 4 averaging factors x 4 momenta x Nesterov x 3 learning rates"), ("T04", 4, "4x4 moment decays x 4 weight decays x 3 learning rates")):
    check(pid, [J("t01_train.c", ISA + ["asan"], cflags="-DPART=%d" % part)], "exploration", REAL + "; independent double-precision implementation of the update rule",
      "every combination of settings over the alphabets, every network shape, every loss and activation, in every build",
      rule="one evaluation = all parameters after one epoch compared with the rule; non-trivial if the rule's result is well conditioned (no sample on a kink, no vanishing gradient)",
      bounds=what + " x 3 batch sizes x 4 histories of 4 epochs; 1..17 (20) x 4 x 6 networks; all losses and activations; gradients of 2^-8..2^-30; 12 (24) epochs; teams of 1..9 (17) threads x 3 ways of calling")
check("C01", [J("c01_callbacks.c", ["best", "sse", "asan"], cflags="-DPART=1")], "model_checking",
      "exhaustive exploration of score sequences and of interleaved instances on the real callback, in lockstep with a reference automaton",
      "every sequence of scores over an alphabet with ties, both zeros, extremes, infinities and NaN; every interleaving of creating, running and freeing two instances",
      bounds="13 values to depth 4 (5) x 4 patiences x 2 directions; 4 values to depth 7 (9) x 3 patiences; 1..4 metrics x every monitored position x validation given or not per epoch; two instances to depth 6 (8)",
      assumptions=["a NaN score is never an improvement; the first score that is not NaN is one"])
check("C02", [J("c01_callbacks.c", ["best", "asan"], cflags="-DPART=2")], "model_checking",
      "exhaustive exploration of score sequences and of interleaved instances on the real callback, in lockstep with a reference automaton; the file is read by an independent parser after every epoch",
      "every sequence of scores; files kept or removed between epochs (shows every rewrite); every interleaving of two checkpoints",
      bounds="13 values to depth 3 (4) x 2 directions; 4 values to depth 5 (7); 1..3 metrics x every monitored position; two checkpoints to depth 5 (7); 15 file names and lengths 100..128",
      assumptions=["file names above 128 characters are refused (documented limit of neuralnet_save)"])
check("C03", [J("c01_callbacks.c", ["best", "asan"], cflags="-DPART=3")], "model_checking",
      "exhaustive exploration of run histories of the real logger: runs of several epochs, with the file cut at every byte of its last line between them; an independent reader checks every line and number",
      "every history of runs and cuts; every number of metrics; a corpus of prior contents at every distance around the buffer sizes",
      bounds="3 runs of 0..2 epochs x every cut x 4 metric counts x 4 first epochs; 1..60 metrics x names x validation x 12 value patterns; 25 kinds of prior content x 14 lengths",
      assumptions=["a number cut inside its digits may count as the number it shows or as not logged", "prior contents with numbers outside 0..2^31-2 only must not do harm"])
check("C04", [J("c01_callbacks.c", ["best", "asan"], cflags="-DPART=4")], "exploration",
      "exhaustive enumeration on the real code; the bar is drawn on a pseudo terminal of every width and read back by an independent reader",
      "every (samples, batch size, kind); every position of every small total; every width; large totals around every percent",
      bounds="1..33 (60) samples x every batch size x 4 kinds x 2 epochs; every x of every n to 101 (130) on 5 widths; widths 1..140 (300) x 6 label lengths; 13 large totals x 101 percents x 5 neighbours x 4 widths; labels of up to 2^31-1 characters and 71 that cannot be formatted, on a terminal and a pipe; epochs of up to 65537 mini-batches",
      assumptions=["a terminal of unknown width (0) and a total of 0 are unspecified"])
check("T05", [J("t01_train.c", ["best", "sse", "blas", "asan", "blasasan"], cflags="-DPART=5")], "exploration", REAL + "; means are recomputed from single predictions",
      "every list of metrics up to length 3, every form of giving or not giving validation data, every optimizer, every loss; results in exact buffers",
      rule="one evaluation = all results of one call compared; non-trivial if there is a metric",
      bounds="585 metric lists x 4 (20) sample counts x 4 output widths x 3 output activations; 4 optimizers x 3 training sizes x 6 validation forms x 4 lists x 3 epochs; every pair of (optimizer, loss) without metrics; 300000 samples; 2^31 values; teams of 1..9 (17) threads x 3 ways of calling; a sample of infinite, undefined, huge or tiny metric at every position of 1..20 samples; every sequence of three losses")
check("T06", [J("t01_train.c", ["best", "blas", "asan"], cflags="-DPART=6", env={"OMP_NUM_THREADS": "1"})], "model_checking",
      "exhaustive exploration of all interleavings of scripted training programs on the real code, compared with each program alone in a pristine process",
      "every merge of two programs (create with callbacks, three epochs over different data sets, free) for every pair of optimizer kinds; every merge of three programs in phases; every execution in its own process",
      bounds="252 merges x 16 kind pairs x 1..3 (6) variants; 1680 merges of three programs x 2 (8) choices", assumptions=["the library draws random numbers with rand(); every program is given its own stream, as it would have alone"])
def user_libs(scratch, repo, here):
    import subprocess
    d = scratch + "/lib"; os.makedirs(d, exist_ok=True)
    with open(d + "/syms.h", "w") as f:
        for k in range(1, 201):
            n = "s" * k
            f.write("void %s(const int n, float *y){ for (int i = 0; i < n; i++) y[i] *= %.3ff; }\n" % (n, 1 + k * 0.125))
            if k % 3: f.write("void %s_derivative(const int n, const float *a, float *d){ for (int i = 0; i < n; i++) d[i] *= %.3ff; }\n" % (n, 1 + k * 0.125))
    def cc(out, lib, factor, extra=""):
        subprocess.run("gcc -O1 -w -shared -fPIC -DLIB=\"'%s'\" -DFACTOR=%s %s %s/harness/c05_lib.c -o '%s/%s' -lm" % (lib, factor, extra, here, d, out), shell=True, check=True, capture_output=True)
    cc("a.so", "a", 2, "-DTWINS"); cc("b.so", "b", 3); cc("a@b.so", "c", 5); cc("undef.so", "u", 7, "-DUNDEF"); cc("syms.so", "s", 1, "-DSYMS='\"%s/syms.h\"'" % d)
    open(d + "/text.so", "w").write("This is not a library.\n" * 40); open(d + "/empty.so", "w").close()
check("C05", [J("c05_dynamic.c", ["best", "asan"], alloc=True), J("c05_dynamic.c", "sse", alloc=True, suite="nets")], "model_checking",
      "exhaustive exploration of lookup histories on the real code, every history in a process of its own, in lockstep with a table of what the names mean",
      "every sequence of lookups over resolvable and unresolvable names to the depth; every name length; every allocation of a lookup failing; networks of every mixture of user-supplied and built-in activations against the double-precision reference",
      bounds="24 names to depth 3 (fourth step: 12 names), repeated sequences, symbols of 1..200 characters, paths of 60..4090 characters, unresolvable names to 9000 characters; networks of 1..3 layers over 7 functions x user-supplied or built-in",
      assumptions=["libraries are ordinary ELF libraries; corrupt ones are the dynamic linker's business"], prepare=user_libs)
def all_builds(scratch, repo, here):
    import run, subprocess
    os.makedirs(scratch + "/picb", exist_ok=True); os.makedirs(scratch + "/pic", exist_ok=True)
    b = run.Builder(scratch + "/picb"); cf = [c for c in ("sse", "avx", "avx2", "avx2nf", "avx512", "avx512o1", "blas", "blassse") if c in run.CONFIGS]
    for c in cf: b.start_lib(c, "-fPIC")
    b.finish()
    run.run_parallel([(c, "gcc -shared -Wl,-Bsymbolic -fopenmp -o %s/pic/%s.so -Wl,--whole-archive %s -Wl,--no-whole-archive %s -lzip -lz -ldl -lm" % (scratch, c, b.libs[(c, "-fPIC")][1], " ".join(run.blas_flags() or []) if "blas" in c else "")) for c in cf])
check("N09", [J("n09_builds.c", "best")], "exploration", "exhaustive bounded enumeration of programs, each executed by every build of the real library in one process and compared pairwise",
      "every build (plain x86-64, AVX, AVX2 with and without FMA, AVX-512, with BLAS), every program over the alphabets; every file read by every build",
      rule="one evaluation = one value compared between two builds (or one file read by one build); programs distinct by construction; non-trivial if no sample sits on a kink",
      bounds="all networks of one layer to 34 (40), 13 sizes at depth 2, 5 (9) at depth 3 x 9 activations x 3 batch sizes; 4 optimizers x 12 (20) x 4 x 3 networks x 4 losses x 3 settings x 3 batch sizes, trained, evaluated, saved, cross-loaded; 15x15 wide layers; up to 1000 samples",
      assumptions=["two results within twice the rounding bound of the exact value are the same number up to rounding"], prepare=all_builds)
WRAP = " ".join("-Wl,--wrap=" + f for f in "memset memcpy memmove memcmp strlen strcmp strncmp strcpy strncpy strcat strchr strrchr strdup strtok vsnprintf vsprintf snprintf sprintf open open64 fopen fopen64 unlink remove rename zip_open pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock".split())
def P(what, cfg): return J(["p01_threads.c", "../lib/psched.c"], cfg, cflags="-DWHAT=%d -U_FORTIFY_SOURCE -fno-builtin" % what, lib_cflags="-U_FORTIFY_SOURCE", link_pre=WRAP + (" -Wl,--wrap=cblas_sgemm" if "blas" in cfg else ""), harness_nosan=True, set={"caselimit": "15000", "casetime": "40"})
RACE = ["a file is a shared byte that opening for writing, renaming and removing write and opening for reading reads; processors are one fewer than threads",
        "every conflicting pair of accesses not ordered by synchronisation is a race, so that exploring all orders of the synchronising steps covers all interleavings",
        "libzip, the C library and OpenBLAS are not instrumented; the memory their functions touch on the library's behalf is reported for the ones it uses"]
check("P01", [P(1, c) for c in ("tsan", "tsansse", "tsanblas")], "model_checking",
      "stateless exploration of every order of synchronising steps of the real parallel regions under a controlled scheduler that replaces the OpenMP run-time, with a happens-before race detector on every memory access",
      "every number of threads, every order in which threads take locks and pieces of work",
      bounds="1..4 (5) threads x 1..6 samples x 5 networks (gradient); 1..3 (4) threads x 2..4 samples x 4 optimizers x validation (epochs); 1..4 (5) threads x 0..7 samples x 1..4 metrics (evaluation); 1..5 (6) threads x 0..9 samples, different, equal or equal in pairs (batch prediction)", assumptions=RACE)
check("P02", [P(2, c) for c in ("tsan", "tsansse", "tsanblas")], "model_checking",
      "stateless exploration of every order of synchronising steps of real calls made at the same time under a controlled scheduler, with a happens-before race detector on every memory access",
      "every pair and triple of read-only operations on one network, with teams of one and two threads inside",
      bounds="all multisets of 2 and 3 of 8 operations x 3 networks x teams of 1..2 threads", assumptions=RACE)
check("P03", [P(3, c) for c in ("tsan", "tsansse", "tsanblas")], "model_checking",
      "stateless exploration of every order of synchronising steps of real calls made at the same time on separate objects under a controlled scheduler, with a happens-before race detector on every memory access",
      "every pair and triple of operations on a network, array or list of each thread's own, with teams of one and two threads inside",
      bounds="all multisets of 2 and 3 of 8 operations x equal or different shapes x teams of 1..2 threads", assumptions=RACE)
K05 = dict(alloc=True, link_pre="-Wl,--wrap=mmap -Wl,--wrap=munmap", env={"OMP_NUM_THREADS": "1"})
check("K05", [J("k05_lifetimes.c", "best", suite=x, set={"less": "0"}, **K05) for x in ("callbacks", "arrays", "lists", "trained", "training", "crowd")] + [J("k05_lifetimes.c", c, set={"less": "1"}, **K05) for c in ("blas", "asan")], "model_checking",
      "exhaustive exploration of operation sequences on the real objects in lockstep with a model of what exists; every block, mapping and descriptor is accounted for; sanitizer build and poisoned memory",
      "every sequence of creating, using and freeing networks, optimizers, callbacks, arrays and lists to the depth; what remains is freed in both orders",
      bounds="training objects: depth 4 (5) from nothing, 3 (4) from a network with an optimizer and with a callback as well, 2 networks x 2 optimizers of 6 kinds x 2 callbacks of 5 kinds; arrays and lists: depth 5 (6) from nothing, 3 (4) from filled lists; one less in the BLAS and sanitizer builds; up to 40 instances",
      assumptions=["an optimizer whose network was freed may only be freed (as example_03.c does)", "an array belongs to the list it was added to"])
NOT_APPLICABLE = {}
