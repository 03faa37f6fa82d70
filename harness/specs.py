# property -> harnesses and instances (p: bounds passed to the harness; tier thorough: only in the thorough tier)
def T(*a): return ["-I/repo/tools/" + x for x in a]
PROPS = {}
def P_(s): return {k: int(v) for k, v in (x.split("=") for x in s.split())}
PROPS["T01"] = dict(harnesses=[
    dict(src="t01_binavg.cc", inc=T("binavg"), inst=[
        dict(p=dict(mode=1, Nz=2, n1=2, n2=2)), dict(p=dict(mode=2, Nz=2, n1=2, n2=1)), dict(p=dict(mode=3, Nz=2, n1=1, n2=2)), dict(p=dict(mode=1, Nz=3, n1=1, n2=1, n3=1, verbose=1)), dict(p=dict(mode=1, Nz=1, n1=3, one=1)), dict(p=dict(mode=2, Nz=1, n1=2, one=1)), dict(p=dict(mode=1, Nz=2, n1=0, n2=2)),dict(p=dict(mode=3, Nz=2, n1=1, n2=1, one=1)),
        dict(p=dict(mode=1, Nz=2, n1=3, n2=2), tier="thorough"), dict(p=dict(mode=3, Nz=3, n1=2, n2=2, n3=1), tier="thorough")]),
    dict(src="t01_refuse.cc", inc=T("binavg"))])
PROPS["T02"] = dict(harnesses=[
    dict(src="t02_mats.cc", inc=T("mats"), inst=[dict(p=dict(Nz=2, n1=1, n2=1)), dict(p=dict(mode=3, Nz=1, n1=2, nmats=1)), dict(p=dict(mode=2, Nz=1, n1=1, nmats=3, one=1)), dict(p=dict(mode=1, Nz=3, n1=1, n2=1, n3=1, nmats=1, verbose=1)), dict(p=dict(mode=3, Nz=2, n1=1, n2=1, nmats=4, one=1)), dict(p=dict(Nz=2, n1=2, n2=2, nmats=2), tier="thorough")]),
    dict(src="t02_refuse.cc", inc=T("mats"))])
PROPS["T03"] = dict(harnesses=[
    dict(src="t03_specmoments.cc", inc=T("specmoments"), inst=[dict(p=dict(Nz=2, n1=1, n2=1)), dict(p=dict(Nz=1, n1=2, filter=3)), dict(p=dict(Nz=1, n1=2, filter=4, one=1)), dict(p=dict(Nz=2, n1=1, n2=1, filter=8)), dict(p=dict(Nz=2, n1=1, n2=1, central=1, wconst=1)), dict(p=dict(Nz=1, n1=3, central=1, wconst=1)), dict(p=dict(Nz=2, n1=2, n2=1, central=1, fconst=1)), dict(p=dict(Nz=1, n1=3, central=1, filter=5, fconst=1)), dict(p=dict(Nz=2, n1=2, n2=1), tier="thorough"), dict(p=dict(Nz=1, n1=2, central=1), tier="thorough")]),
    dict(src="t03_refuse.cc", inc=T("specmoments"))])
PROPS["T04"] = dict(harnesses=[
    dict(src="t04_bw.cc", inc=T("bw"), inst=[dict(p=dict(n=2, fconst=1, bconst=1)), dict(p=dict(n=1)), dict(p=dict(n=2, neg=0, fconst=1, wconst=1)), dict(p=dict(n=1, Nz=2, fconst=1, bconst=1)), dict(p=dict(n=1, Nz=2, fconst=1, wconst=1)), dict(p=dict(n=1, fconst=1, bconst=1, wide=1)), dict(p=dict(n=2, fconst=1, bconst=1, wide=1, neg=0)),
        dict(p=dict(n=2, pos=1, fconst=1, bconst=1)), dict(p=dict(n=1, iter=2, wconst=1, fconst=1, bconst=1)), dict(p=dict(n=1, iter=2, fconst=1, bconst=1)), dict(p=dict(n=1, iter=2, wconst=1, fconst=1), tier="thorough"), dict(p=dict(n=2, wconst=1, Nz=1), tier="thorough")]),
    dict(src="t04_adaptive.cc", inc=T("bw"), opts=["--canon-div"], inst=[dict(p=P_(x)) for x in ("n=2 iter=1", "n=4 scale=1 iter=3", "n=2 scale=1 dyn=1", "n=3 scale=1 dyn=1 bmin10=4")] + [dict(p=dict(n=3, iter=1), tier="thorough")])])
PROPS["T05"] = dict(harnesses=[
    dict(src="t05_intavg.cc", inc=T("intavg"), inst=[dict(p=dict(Nz=1, n1=3)), dict(p=dict(Nz=2, n1=2, n2=2)), dict(p=dict(Nz=3, n1=2, n2=3, n3=2, fconst=1)), dict(p=dict(Nz=2, n1=3, n2=2, fconst=1, zero=1, verbose=1)), dict(p=dict(Nz=2, n1=3, n2=2), tier="thorough")]),
    dict(src="t05_tdavg.cc", inc=T("tdavg"), inst=[dict(p=dict(Nz=2)), dict(p=dict(Nz=1, n1=3, cols=1, copy=1)), dict(p=dict(Nz=2, fconst=1, ref=1, n1=3, m1=3)), dict(p=dict(Nz=1, ref=2, cols=1)), dict(p=dict(Nz=3, n2=3, fconst=1, ref=2, desc=0, verbose=1)), dict(p=dict(Nz=2, ref=1, cols=1), tier="thorough")]),
    dict(src="t05_refuse.cc", inc=T("tdavg")), dict(src="t05_refuse2.cc", inc=T("intavg"))])
G = dict(rt=["gsl"], libs=["-lgsl", "-lgslcblas"])
PROPS["T06"] = dict(harnesses=[
    dict(src="t06_integ.cc", inc=T("integ"), **G, inst=[dict(p=dict(mode=m)) for m in range(3)] + [dict(p=dict(mode=3, positive=1)), dict(p=dict(mode=3)), dict(p=dict(mode=4, positive=2)), dict(p=dict(mode=4)), dict(p=dict(mode=1, perm=1, n=7)), dict(p=dict(mode=2, perm=1)), dict(p=dict(noise=1, verbose=1))])])
L = dict(rt=["lapack"], libs=["-llapack", "-lblas"])
PROPS["T07"] = dict(harnesses=[
    dict(src="t07_diag.cc", inc=T("diag"), **L, inst=[dict(p=dict(n=1)), dict(p=dict(n=2, rot=1)), dict(p=dict(n=2, rot=2, bin=1)), dict(p=dict(n=2, rot=1, scale=1)), dict(p=dict(n=1, scale=2, bin=1, verbose=1, quiet=1)), dict(p=dict(n=3, rot=1)), dict(p=dict(n=3, rot=2, bin=1, scale=2)), dict(p=dict(n=3, rot=3, verbose=1)), dict(p=dict(n=2, rot=0)), dict(p=dict(n=3, rot=0), tier="thorough"), dict(p=dict(n=2, rot=3, bin=1), tier="thorough")]),
    dict(src="t07_refuse.cc", inc=T("diag"), **L)])
M = dict(inc=T("matrix"), extra=["/repo/tools/matrix/matrix.cc", "/repo/tools/matrix/parser.cc"])
PROPS["T08"] = dict(harnesses=[
    dict(src="t08_matrix.cc", **M, inst=[dict(p=dict(mode=0, op=o, pre=o % 2)) for o in range(4)] + [dict(p=dict(mode=1)), dict(p=dict(mode=1, pre=1, verbose=1)), dict(p=dict(mode=2, nch=1)), dict(p=dict(mode=2, nch=2)), dict(p=dict(mode=2, nch=3, pre=1)), dict(p=dict(mode=3)), dict(p=dict(mode=3, split=1))]),
    dict(src="t08_refuse.cc", **M, inst=[dict(p=dict(mode=m)) for m in range(3)])])
GM = dict(libs=["-lgmp"])
PROPS["T09"] = dict(harnesses=[
    dict(src="t09_tables.cc", inc=T("nrgchain"), **GM, inst=[dict(p=dict(mMAX=1)), dict(p=dict(mMAX=1, z100=50)), dict(p=dict(mMAX=1, b=2, z100=75)), dict(p=dict(mMAX=1, adapt=1)), dict(p=dict(mMAX=3, flat=1)), dict(p=dict(mMAX=2, flat=1, z100=25, Lambda=3)), dict(p=dict(mMAX=1, amp=0), time=200), dict(p=dict(mMAX=2, z100=50), tier="thorough")]),
    dict(src="t09_chain.cc", inc=T("nrgchain"), **GM, inst=[dict(p=dict(mMAX=1, Nmax=0, var=0)), dict(p=dict(mMAX=1, Nmax=1, var=2)), dict(p=dict(mMAX=1, Nmax=0, var=1)), dict(p=dict(mMAX=2, Nmax=1, var=3)), dict(p=dict(mMAX=1, Nmax=1, var=2, bsym=1, rescalexi=1))]),
    dict(src="t09_refuse.cc", inc=T("nrgchain"), **GM, inst=[dict(p=dict(mode=m)) for m in range(4)])])
PROPS["T10"] = dict(harnesses=[
    dict(src="t10_adapt.cc", inc=T("adapt"), opts=["--canon-div"], inst=[dict(p=P_(x)) for x in ("shape=0", "shape=1 neg=1", "shape=2 b100=200 order=1", "shape=3 neg=1 order=1", "shape=1 Lambda=3 b100=50 fine=2048", "shape=1 gap=1", "adapt=1 xmax=8 shape=1", "adapt=1 xmax=8 shape=3 neg=1", "adapt=1 xmax=7 shape=2 b100=200 fine=2048", "adapt=2 shape=1 order=1 neg=1 fine=2048", "flat=1", "flat=2 neg=1 b100=50", "flat=2 gap=1 Lambda=3 fine=8192", "steps=8 shape=2 xmax=3", "sym=2 shape=1 xmax=2 dx=4", "sym=4 shape=3 steps=1 dx=1 xmax=2 err=10 tol=50")]),
    dict(src="t10_refuse.cc", inc=T("adapt"), inst=[dict(p=dict(mode=m)) for m in range(5)])])
PROPS["T11"] = dict(harnesses=[
    dict(src="t11_kk.cc", inc=T("kk"), **G, inst=[dict(p=dict(mode=m)) for m in range(3)] + [dict(p=dict(std=1)), dict(p=dict(mode=0, n=8, perm=1)), dict(p=dict(mode=1, n=8, std=1))]),
    dict(src="t11_refuse.cc", inc=T("kk"), **G)])
PROPS["T12"] = dict(harnesses=[
    dict(src="t12_hilb.cc", inc=T("hilb"), **G, inst=[dict(p=dict(z=i, B2=i % 2, panels=4 if i < 3 else 48)) for i in range(12)]),
    dict(src="t12_tool.cc", inc=T("hilb"), **G, inst=[dict(p=dict(mode=m, G=g, panels=8, shift=int(m == 2 or g), perm=g)) for m in (1, 2, 3) for g in (0, 1)] + [dict(p=dict(mode=m, G=1, bethe=b, panels=64)) for m, b in ((1, 1), (2, 2), (3, 1))])])
# ---- core (c++/): real symmetry classes, one compiled harness per symmetry type
FULL = dict(QS=dict(), QSZ={}, ISO={}, ISO2={}, ISOSZ={}, SPSU2={}, SPU1={}, U1={}, NONE={}, P={}, PP={}, SL={}, SL3={}, SU2={}, SPU1LR={}, SPSU2LR={}, QSLR={}, QSZLR={}, ISOLR={}, ISO2LR={}, ISOSZLR={}, DBLISOSZ={}, DBLQSZ={}, DBLSU2={}, QST={}, QSTZ={}, QSZTZ={}, SPSU2T={}, QJ={}, QSC3={}, SPSU2C3={})
CPLX = ("QSC3", "SPSU2C3"); SYF = dict(ISO2="ISO", ISO2LR="ISOLR")
VAC = dict(QS="v1=1", QSZ="nq=2 v1=1", ISO="nq=2 v0=1 v1=1 zeta=0", ISO2="nq=2 v0=1 v1=1 zeta=0", ISOSZ="nq=2 v0=1 v1=1 zeta=0", SPSU2="nq=1 v0=1", SPU1="nq=1 v0=1", U1="nq=1", NONE="nq=1", P="nq=1 v0=1", PP="nq=2 v0=1 v1=1 ch=2 moments=2", SL="nq=1 ns=1", SL3="nq=3 ns=1 ch=3", SU2="nq=1 v0=1 zeta=0",
    SPU1LR="nq=2 v0=1 v1=1 zeta=2 xi=2", SPSU2LR="nq=2 v0=1 v1=1 ch=2 zeta=2 xi=2", QSLR="nq=3 v1=1 v2=1 ch=2 zeta=2 xi=2", QSZLR="nq=3 v1=1 v2=1 ch=2 zeta=2 xi=2", ISOLR="nq=3 v0=1 v1=1 v2=1 ch=2 zeta=0 xi=2", ISO2LR="nq=3 v0=1 v1=1 v2=1 ch=2 zeta=0 xi=2", ISOSZLR="nq=3 v0=1 v1=1 v2=1 ch=2 zeta=0 xi=2", DBLISOSZ="nq=3 v0=1 v1=1 v2=1 ch=2 zeta=0", DBLQSZ="nq=3 v2=1 ch=2", DBLSU2="nq=2 v0=1 v1=1 ch=2 zeta=0 moments=2",
    QST="nq=3 v1=1 ch=3 zeta=2 xi=2 moments=2", QSTZ="nq=3 v1=1 ch=3 zeta=2 xi=2 moments=2", QSZTZ="nq=3 v1=1 ch=3 zeta=2 xi=2 moments=2", SPSU2T="nq=2 v0=1 ch=3 zeta=2 xi=2 moments=2", QJ="nq=2 v1=1 ch=3 zeta=2 xi=2 moments=2", QSC3="nq=3 v1=1 ch=3 zeta=2 xi=2 moments=2", SPSU2C3="nq=2 v0=1 ch=3 zeta=2 xi=2 moments=2")
def P(s): return {k: int(v) for k, v in (x.split("=") for x in s.split())}
def core(src, sy, insts, thorough=(), cplx=False):
    d = ["-DSYFILE=\"/repo/c++/symmetry/sym-%s-impl.hpp\"" % SYF.get(sy, sy), "-DSYCLASS=Symmetry" + sy, "-DSYNAME=" + sy, "-DSCAL=" + ("std::complex<double>" if cplx or sy in CPLX else "double"), "-DEIGEN_NO_CPUID"]
    return dict(src=src, name=src[:-3] + "-" + sy + ("c" if cplx else ""), defs=d, core=True, rt=["lapack"], nwit=0, opts=["--max-instr", "20000000000"], insttime=400, inst=[dict(p={**P(VAC[sy]), **P(x)}) for x in insts] + [dict(p={**P(VAC[sy]), **P(x)}, tier="thorough") for x in thorough])
C1 = dict(
    QS=(["", "sites=3", "ch=2", "ch=2 sub=1", "ch=3 moments=2", "ch=2 rungs=1", "sites=3 rot=1", "ch=2 sub=1 rot=1 moments=2"], ["ch=4 sites=1", "ch=2 rot=1", "ch=2 sites=3 moments=2"]),
    QSZ=(["", "pol=1", "ch=2 rungs=1", "ch=2 pol=1", "ch=2 sub=1", "ch=2 sub=1 rot=1 moments=2"], ["ch=3 moments=2", "ch=3 pol=1 moments=2"]),
    ISO=(["", "ch=2", "ch=2 rot=1 moments=2"], ["ch=3 moments=2", "sites=3"]), ISO2=(["", "ch=2"], ["sites=3", "ch=2 rot=1 moments=2"]), ISOSZ=(["", "ch=2", "ch=2 rot=1 moments=2"], ["sites=3", "ch=3 moments=2"]),
    SPSU2=(["", "delta=1", "delta=1 kappa=1", "ch=2 delta=1 kappa=1 moments=2", "ch=2 sub=1", "sites=3 delta=1 rot=1"], ["ch=3 delta=1 moments=2"]),
    SPU1=(["delta=1 kappa=1", "delta=1 pol=1", "ch=2 delta=1 kappa=1 moments=2", "ch=2 sub=1 delta=1 moments=2", "sites=3 delta=1 rot=1 moments=2"], ["sites=3 delta=1 pol=1 rot=1", "ch=2 delta=1 pol=1 moments=2"]),
    U1=(["", "pol=1", "ch=2", "ch=2 rot=1 moments=2", "pol=2", "ch=2 pol=2 moments=2"], ["sites=3 pol=2 moments=2"]),
    NONE=(["", "pol=1", "delta=1", "ch=2 moments=2", "sites=3 delta=1 rot=1 moments=2"], ["ch=2 pol=1 delta=1 moments=2"]), P=(["pol=1 delta=1", "delta=1", "ch=2 moments=2"], ["ch=2 pol=1 delta=1 moments=2"]), PP=(["delta=1", "pol=1"], ["pol=1 delta=1"]),
    SL=(["", "ch=2", "ch=3"], ["ch=2 sites=3"]), SL3=(["moments=3"], []), SU2=(["", "ch=2"], ["sites=3"]),
    SPU1LR=(["ch=2", "ch=2 delta=2 kappa=2 moments=2"], ["ch=1"]), SPSU2LR=(["moments=2", "moments=2 delta=2 kappa=2"], []), QSLR=([""], []), QSZLR=([""], []), ISOLR=([""], []), ISO2LR=([""], []), ISOSZLR=([""], []), DBLISOSZ=([""], []), DBLQSZ=([""], []), DBLSU2=([""], []),
    QST=([""], []), QSTZ=([""], []), QSZTZ=([""], []), SPSU2T=([""], []), QJ=([""], []), QSC3=([""], ["rot=1"]), SPSU2C3=([""], []))
PROPS["C01"] = dict(harnesses=[core("c01_chain.cc", sy, *C1[sy]) for sy in sorted(C1, key=lambda x: ("SPSU2C3", "QSC3", "QJ", "QSZTZ", "QSZ", "QS").index(x) if x in ("SPSU2C3", "QSC3", "QJ", "QSZTZ", "QSZ", "QS") else 9)], budget=500)
C2 = dict(
    QS=(["mode=7", "ch=2 mode=7 gl=3592", "ch=2 sub=1"], ["sites=3 mode=7", "ch=2 ops=5"]),
    QSZ=(["", "pol=1 mode=7 gl=98305", "ch=2 pol=1", "ch=2 sub=1", "ch=3 mode=4 zeta=2 xi=2"], ["sites=3 pol=1 mode=7"]),
    U1=(["", "pol=1", "pol=2 mode=0 gl=3"], ["ch=2 pol=1"]), NONE=(["pol=1", "pol=1 delta=1 mode=0 gl=443", "ch=2 delta=1"], []),
    P=(["delta=1", "ch=2 pol=1 delta=1 gauge=1", "pol=1 delta=1 mode=0 gl=443"], []), PP=(["ch=2 dch=0", "ch=2 pol=1 delta=1 mode=0 gl=443"], []),
    SPSU2=(["delta=1 mode=7 gl=440", "ch=2 delta=1 mode=7", "ch=2 delta=1 mode=0 gl=4024", "ch=3 mode=4"], []),
    SPU1=(["delta=1 pol=1 mode=7 gl=440", "ch=2 delta=1", "ch=2 delta=1 pol=1 mode=0 gl=1970104"], ["ch=2 delta=1 pol=1"]),
    SL=(["ch=2", "ch=3 mode=0 gl=28672", "ch=2 mode=0 gl=520"], ["ch=3"]), SL3=(["dch=1 gl=28680"], []), SU2=(["mode=1 gl=3"], ["ch=2 mode=1"]),
    ISO=(["mode=5", "ch=2 mode=5"], []), ISO2=(["ch=2 mode=5"], []), ISOSZ=(["mode=5 gl=1", "ch=2 mode=5 gl=1"], []),
    DBLISOSZ=(["mode=1 gl=1"], []), DBLQSZ=(["gl=1"], []), DBLSU2=(["mode=1 gl=3"], []),
    QSZLR=(["dch=0"], []), SPSU2LR=(["mode=7 lr=1"], []), SPU1LR=(["mode=7 lr=1 ch=2", "ch=2 mode=0 gl=440"], []), QSLR=(["mode=7 lr=1"], []), ISOLR=(["mode=5 lr=1"], []), ISOSZLR=(["mode=5 lr=1"], []),
    QST=(["ops=1 all=0 dch=1 nch=1", "mode=4", "mode=16"], []), QSTZ=(["ops=1 all=0 dch=1 nch=1", "mode=4"], []), QSZTZ=(["ops=1 all=0 dch=1 nch=1", "mode=4"], []),
    QSC3=(["dch=0 ops=1 all=0 nch=1 c3=1"], []), SPSU2C3=(["dch=0 ops=1 all=0 nch=1 c3=1"], []), QJ=(["ops=1 all=0 quad=1 dch=2 nch=2"], []), SPSU2T=(["mode=1 ops=1 all=0 dch=1", "mode=3 ops=1 all=0 dch=0 nch=1"], []))
PROPS["C02"] = dict(harnesses=[core("c02_ops.cc", sy, *C2[sy]) for sy in sorted(C2, key=lambda x: ("QJ", "SPSU2C3", "QSC3", "QSZTZ", "QST", "QSZ", "QSTZ", "SPSU2").index(x) if x in ("QJ", "SPSU2C3", "QSC3", "QSZTZ", "QST", "QSZ", "QSTZ", "SPSU2") else 9)], budget=500)
C3 = ["", "mode=1 fix=1", "mode=1 fix=2", "sg=1", "kE=1", "kE=1 kmin=1 absolute=1", "kE=1 sg=1 n1=1", "kE=1 sg=1 kmin=1 fix=1 n0=2 n1=1", "x0=1 sg=1", "x0=1 x1=2 kE=1", "keepall=1", "keepall=1 shell=2", "keepall=2", "keepall=3", "keepall=4", "keepall=4 shell=13", "last=1", "last=2", "n2=1 n1=1 sg=1", "n0=3 n1=2", "n2=1 n1=2", "mode=2", "mode=2 n0=3 n1=1"]
PROPS["C03"] = dict(harnesses=[core("c03_trunc.cc", "QS", C3, ["n0=3 n1=2 sg=1", "n0=3 n1=3", "n2=2 sg=1 kE=1", "mode=1 fix=2 n0=3 n1=2"])], budget=500)
C4 = ["n=1", "n=1 sign=1 bins=2", "n=1 far=1 bins=3", "n=2 cplx=0", "n=2 cplx=0 sign=2 pair=1", "n=2 cplx=0 far=1", "mode=10 n=1", "mode=10 n=1 cplx=0 bins=2", "mode=8 n=1 cplx=0", "mode=8 n=1 lin=1 sign=1",
    "mode=1 cplx=0", "mode=1 even=0 Nmax=10", "mode=1 avg=1 cplx=0", "mode=1 avg=1 fixw=0 cplx=0", "mode=1 fixw=0 tanh=2 cplx=0", "mode=1 first=2 Nmax=9 fixw=0 cplx=0", "mode=1 sub=1 channels=2 cplx=0", "mode=1 bins=2 nn1=1 cplx=0", "mode=1 nn1=1 cplx=0 first=1 Nmax=8", "mode=1 absolute=1 cplx=0", "mode=1 absolute=1 avg=1 cplx=0 Nmax=8",
    "mode=2 cplx=0", "mode=2 cplx=0 bins=2", "mode=3 cplx=0", "mode=3 cplx=1", "mode=3 auto=1 cplx=0", "mode=3 sym=1 cplx=0", "mode=3 sym=2 cplx=0", "mode=3 om100=150 cplx=0 bins=2", "mode=4", "mode=5", "mode=5 mats=4 n=3", "mode=6", "mode=6 n=3 cplx=0", "mode=7", "mode=7 T100=150", "mode=9"]
PROPS["C04"] = dict(harnesses=[core("c04_spec.cc", "QS", C4, ["n=1 far=1 bins=5 sign=1", "n=2 far=1 cplx=0 sign=2 bins=2", "mode=1 cplx=0 bins=4", "mode=1 avg=1 cplx=0 bins=3 Nmax=12", "mode=8 n=1 bins=2 lin=1"])], budget=500)
C5 = [x for a in range(11) for b in (0, 1) for x in ("alg=%d bos=%d" % (a, b), "alg=%d bos=%d last=1 pairs=3 k0=1" % (a, b), "alg=%d bos=%d pairs=4 absolute=1 project=%d miss=1" % (a, b, a % 3), "alg=%d bos=%d pairs=2 calls=2 deg=1" % (a, b))] + ["alg=%d pairs=4 spin=-1 bos=%d n0=3 n1=3 project=%d" % (a, a % 2, (a + 1) % 3) for a in range(11)]
C5 += [x for a in range(11, 15) for x in ("alg=%d bos=%d deg=1" % (a, a == 14), "alg=%d bos=%d pairs=4 last=1" % (a, a == 14), "alg=%d bos=%d pairs=2 absolute=1" % (a, a == 14), "alg=%d bos=%d pairs=4 spin=-1 project=%d" % (a, a == 14, 0))]
C5c = ["alg=0 n0=3 n1=3", "alg=1", "alg=2", "alg=2 k0=1 n0=1", "alg=3", "alg=3 k0=1 bos=1", "alg=4 n0=3 n1=3", "alg=5 n0=3 n1=3", "alg=6 n0=3 n1=3", "alg=7 n0=3", "alg=8 n1=3", "alg=9 k0=1 n1=3", "alg=9 last=1", "alg=10 k0=1", "alg=10 k1=1 bos=1", "alg=11", "alg=14 bos=1"]
PROPS["C05"] = dict(harnesses=[{**core("c05_lehmann.cc", "QS", [x + " zc=1" for x in C5c], ["alg=9 n0=3 n1=3 zc=1", "alg=10 n0=3 n1=3 zc=1"], cplx=True), "opts": ["--max-instr", "20000000000", "--skip", "weight_report"]}, core("c05_lehmann.cc", "QS", [x + " zc=1" for x in C5], ["alg=0 n0=3 n1=3", "alg=6 n0=3 n1=3 pairs=3", "alg=9 pairs=2"])], budget=500)
