------------------------------ MODULE Refuse ------------------------------
(* What can be asked, and what has to be refused: every request of a small  *)
(* universe (each entry point with the kinds of its arguments) is a state,  *)
(* and its verdict follows from the arguments alone. A request that cannot  *)
(* be computed ends in the state "refused"; one that can, in "answered".    *)
(* The harness makes every request, with real arguments of these kinds.     *)
EXTENDS Naturals, Sequences, FiniteSets, Emit

Lower(s) == CASE s = "L2" -> "l2" [] s = "KL" -> "kl" [] s = "LOG" -> "log" [] s = "COS" -> "cos" [] s = "Edge" -> "edge"
              [] s = "Clockwise" -> "clockwise" [] s = "First" -> "first" [] s = "Fourier" -> "fourier" [] s = "Numpy" -> "Numpy"
              [] s = "COM" -> "com" [] s = "Delta" -> "delta" [] s = "Gaussian" -> "gaussian" [] s = "Interval" -> "interval" [] OTHER -> s
Dims(s) == Len(s)
Wide(s) == Cardinality({k \in DOMAIN s : s[k] > 1})
RECURSIVE Count(_, _)
Count(s, k) == IF k = 0 THEN 1 ELSE s[k] * Count(s, k - 1)

-----------------------------------------------------------------------------
(* the kinds of arguments *)
Solvers  == {"SIRT", "SART", "MLEM", "PDHG", "FISTA"}
Names    == {"l2", "L2", "kl", "KL", "l1", "foo", ""}
TermObjs == {"l2", "wl2", "l2b", "Huber", "l1", "l1b", "l12", "KL", "ln"}
RegForms == {"none", "one", "list0", "list1", "list2", "tuple1", "tuple2", "str", "bad-list", "number"}
Regs     == {"TV2D", "HubTV2D", "smooth2D", "lap2D", "l1", "l1swl", "l1swl-n", "l12swl-n", "Hub-swl-n", "l1dwl", "l12dwl", "Hub-dwl", "l1med", "l2med",
             "fft", "fft-l12", "TNV", "VTV", "lnswl-n", "vl1wl-n", "vl1wl-n-1", "vl1wl-1", "vSVD", "lowlim", "uplim"}
Shapes   == {<<3>>, <<3, 3>>, <<4, 4>>, <<2, 3, 3>>, <<2, 2, 3, 3>>}
Vectors  == {<<1>>, <<3>>, <<4>>, <<1, 3>>, <<3, 1>>, <<1, 4>>, <<2, 3>>, <<3, 1, 1>>}

T(f, a) == [form |-> f] @@ a
R(f, S) == {T(f, a) : a \in S}

Requests ==
  [term     |-> R("term", [solver : Solvers, obj : {FALSE}, term : Names, test : BOOLEAN]) \union R("term", [solver : Solvers, obj : {TRUE}, term : TermObjs, test : BOOLEAN]),
   regs     |-> R("regs", [solver : {"SIRT", "MLEM", "PDHG", "FISTA"}, regs : RegForms]),
   proximal |-> R("proximal", [reg : Regs]),
   lines    |-> R("lines", [projector : BOOLEAN, single : BOOLEAN, At : BOOLEAN, rows : BOOLEAN]),
   projector |-> R("projector", [dims : 1..4, square : BOOLEAN, backend : {"skimage", "foo"}, shift : BOOLEAN, geom : BOOLEAN, psf : 0..3]),
   xrf      |-> R("xrf", [dets : 1..3, weights : 0..4, maps : 0..3, same : BOOLEAN]),
   atts     |-> R("atts", [in : Shapes \union {<<>>}, out : Shapes \union {<<>>}, det : {"float", "int", "list", "array", "detector", "detectors", "str", "mixed"}]),
   maps     |-> R("maps", [roi : BOOLEAN, binning : 1..2]),
   shifts   |-> R("shifts", [v : Vectors, u : Vectors]),
   axisdir  |-> R("axisdir", [name : {"clockwise", "Clockwise", "counter-clockwise", "counterclockwise", "", "left"}]),
   geomtype |-> R("geomtype", [name : {"parallel2d", "parallel3d", "cone", "fanflat", "fan", "2d", ""}]),
   disp     |-> R("disp", [ndim : 2..3, disp : 1..4]),
   minimum  |-> R("minimum", [fun : {"fit_loss_min", "fit_parabola_min"}, xs : 1..5, fs : 1..5, scale : {"log", "LOG", "linear", "foo"}]),
   peak1    |-> R("peak1", [dims : 1..3, xs : 0..5]),
   peak2    |-> R("peak2", [dims : 1..3, ys : 0..4, xs : 0..5]),
   pair     |-> R("pair", [fun : {"rotation", "frc"}, one : {<<6, 6>>, <<6, 7>>}, two : {<<6, 6>>, <<6, 7>>, <<6>>, <<1, 6, 6>>, <<>>}]),
   disc     |-> R("disc", [func : {"none", "cos", "COS", "foo", "number"}, target : {"edge", "Edge", "diagonal", "foo", "number"}, origin : 0..3]),
   azimuth  |-> R("azimuth", [dims : 1..3, axes : 0..4]),
   crossing |-> R("crossing", [lims : {"none", "from", "to", "both", "neither"}, pos : {"first", "First", "last", "foo"}]),
   angles   |-> R("angles", [class : {"PRE", "XC"}, w : 1..4, angles : 1..4, v : 0..2]),
   vertical |-> R("vertical", [v : 0..3]),
   method   |-> R("method", [fun : {"fit_u", "as_reference"}, name : {"com", "COM", "max", "xc", "foo"}]),
   refs     |-> R("refs", [w : 2..4, refs : 1..5]),
   masks    |-> R("masks", [dims : 1..2, enc : {<<4>>, <<5, 4>>, <<5, 3, 4>>, <<2, 5, 3, 4>>}, dec : {<<>>, <<4>>, <<5, 4>>, <<6, 4>>, <<5, 3, 4>>, <<5, 3, 5>>, <<6, 3, 4>>, <<2, 5, 3, 4>>}]),
   device   |-> R("device", [name : {"numpy", "foo", ""}]),
   pattern  |-> R("pattern", [name : {"random", "interval", "Interval", "sequential", "foo"}]),
   ghost    |-> R("ghost", [dims : 1..2, n : 3..5]),
   margin   |-> R("margin", [margin : {<<1>>, <<3>>, <<4>>, <<1, 2>>, <<3, 3>>, <<4, 3>>, <<7, 0>>}, nested : BOOLEAN, u : {6}]),
   orbits   |-> R("orbits", [size : {<<8>>, <<8, 9>>, <<7, 8, 9>>}, one : {<<2, 8>>, <<3, 8>>, <<2>>, <<1, 2, 8>>}, two : {<<2, 8>>, <<1, 8>>, <<2>>, <<1, 2, 8>>}]),
   option   |-> R("option", [what : {"domain"}, name : {"fourier", "Fourier", "direct", "foo"}])
               \union R("option", [what : {"profile"}, name : {"gaussian", "Gaussian", "lorentzian", "sech**2", "foo"}])
               \union R("option", [what : {"filter"}, name : {"delta", "Delta", "exp", "exp2", "foo"}])
               \union R("option", [what : {"material"}, name : {"Fe", "Fe2O3", "foo"}])
               \union R("option", [what : {"beam"}, name : {"gaussian", "Gaussian", "lorentzian", "sech**2", "foo"}])
               \union R("option", [what : {"transfer"}, name : {"ctf", "CTF", "tie", "foo"}])
               \union R("option", [what : {"fbp"}, name : {"ramp", "Hann", "cosine", "foo"}])
               \union R("option", [what : {"bins"}, name : {"exponential", "Incremental", "foo"}]),
   detector |-> R("detector", [surface : 0..2, distance : 0..2, many : BOOLEAN]),              \* one less: -1, 0, 1
   emission |-> R("emission", [what : {"rate", "energy"}, lines : {"name", "line", "list", "no lines"}]),
   material |-> R("material", [fractions : 0..2, compositions : 0..2, shape : {<<3, 3>>, <<3>>, <<1, 3>>, <<3, 3, 3>>}]),
   scatter  |-> R("scatter", [angle : BOOLEAN, detector : BOOLEAN]),
   bias     |-> R("bias", [ref : {<<3>>, <<3, 4>>}, recs : {<<10>>, <<10, 3>>, <<10, 4>>, <<10, 3, 4>>, <<10, 3, 3>>, <<10, 2, 3, 4>>}]),
   snip     |-> R("snip", [dims : 1..3, kernel : 0..5]),                                      \* 5: as many as there are
   fbp      |-> R("fbp", [dims : 1..2]),
   qr       |-> R("qr", [decoding : {"none", "same", "other"}]),
   exponent |-> R("exponent", [reg : {"VTV", "vl1wl"}, der : 0..3, chan : 0..3]),
   task     |-> R("task", [init : {"none", "one", "two", "zero", "not callable"}, exec : {"unset", "one", "none", "not callable", "with mask"},
                           cls : {"LCurve", "CrossValidation"}, parallel : {"False", "2", "True", "executor", "str", "float"}]),
   loss     |-> R("loss", [loss : {"one", "two", "zero", "not callable"}]),
   plot     |-> R("plot", [det : 0..3, angles : 1..2, vol : 2..3])]

-----------------------------------------------------------------------------
(* what can be computed *)
HasPrimalProx(g) == g \in {"l1", "l1swl-n", "l1dwl", "fft", "vl1wl-n-1", "lowlim", "uplim"}
Base(q) == IF q.obj THEN q.term \in {"l2", "wl2", "l2b", "KL"} ELSE Lower(q.term) \in {"l2", "kl"}
RegsOk(f) == f \notin {"str", "bad-list", "number"}
Callable1(f) == f = "one"
Admissible(q) ==
  CASE q.form = "term" -> (CASE q.solver \in {"SIRT", "SART", "MLEM"} -> Base(q)
                             [] q.solver = "PDHG" -> q.obj \/ Lower(q.term) \in {"l2", "l1", "kl"}
                             [] q.solver = "FISTA" -> IF q.obj THEN q.term \in {"l2", "wl2", "l2b"} ELSE Lower(q.term) = "l2")
    [] q.form = "regs" -> RegsOk(q.regs) /\ (q.solver = "FISTA" => q.regs \notin {"list2", "tuple2"})
    [] q.form = "proximal" -> HasPrimalProx(q.reg)
    [] q.form = "lines" -> IF q.projector THEN q.single ELSE q.At /\ q.rows
    [] q.form = "projector" -> q.dims = 2 /\ q.square /\ q.backend = "skimage" /\ ~q.shift /\ ~q.geom /\ q.psf <= 1
    [] q.form = "xrf" -> q.weights \in {0, 1, q.dets} /\ (q.maps > 0 => q.maps = q.dets /\ q.same)
    [] q.form = "atts" -> /\ ~(q.in = <<>> /\ q.out = <<>>)
                          /\ (q.in # <<>> /\ q.out # <<>> => q.in = q.out)
                          /\ Dims(IF q.in # <<>> THEN q.in ELSE q.out) \in {2, 3}
                          /\ q.det \notin {"str", "mixed"}
    [] q.form = "maps" -> ~q.roi
    [] q.form = "shifts" -> Wide(q.v) <= 1 /\ Wide(q.u) <= 1 /\ Count(q.v, Dims(q.v)) = Count(q.u, Dims(q.u))
    [] q.form = "axisdir" -> Lower(q.name) \in {"clockwise", "counter-clockwise"}
    [] q.form = "geomtype" -> q.name \in {"parallel2d", "parallel3d", "cone", "fanflat"}
    [] q.form = "disp" -> q.ndim = q.disp
    [] q.form = "minimum" -> q.xs = q.fs /\ q.xs >= 3 /\ Lower(q.scale) \in {"log", "linear"}
    [] q.form = "peak1" -> q.dims <= 2 /\ q.xs \in {0, 3}
    [] q.form = "peak2" -> q.dims = 2 /\ q.ys \in {0, 3} /\ q.xs \in {0, 4}
    [] q.form = "pair" -> q.one = q.two
    [] q.form = "disc" -> /\ q.origin \in {0, 2}
                          /\ IF q.func = "none" THEN TRUE ELSE q.func # "number" /\ Lower(q.func) = "cos" /\ Lower(q.target) \in {"edge", "diagonal", "number"}
    [] q.form = "azimuth" -> q.axes >= 1 /\ q.axes <= q.dims
    [] q.form = "crossing" -> q.lims # "neither" /\ Lower(q.pos) \in {"first", "last"}
    [] q.form = "angles" -> q.w = q.angles
    [] q.form = "vertical" -> q.v >= 2
    [] q.form = "method" -> Lower(q.name) \in (IF q.fun = "fit_u" THEN {"com", "max"} ELSE {"com", "xc"})
    [] q.form = "refs" -> q.refs \in {1, q.w}
    [] q.form = "masks" -> /\ Dims(q.enc) > q.dims
                           /\ q.dec = <<>> \/ q.dec = q.enc
    [] q.form = "device" -> q.name = "numpy"
    [] q.form = "pattern" -> Lower(q.name) \in {"random", "interval", "sequential"}
    [] q.form = "ghost" -> q.dims = 1 /\ q.n = 4
    [] q.form = "margin" -> LET m == IF Dims(q.margin) = 1 THEN <<q.margin[1], q.margin[1]>> ELSE q.margin IN ~q.nested /\ m[1] + m[2] <= q.u
    [] q.form = "orbits" -> Dims(q.size) <= 2 /\ Dims(q.one) = 2 /\ q.one[1] = 2 /\ Dims(q.two) = 2 /\ q.two[1] = 2
    [] q.form = "option" -> q.name # "foo"
    [] q.form = "exponent" -> q.der \in 0..2 /\ q.chan \in 0..2     \* 0: infinity
    [] q.form = "task" -> /\ q.init \in {"none", "one"}
                          /\ q.exec \in (IF q.cls = "LCurve" THEN {"one", "with mask"} ELSE {"with mask"})
                          /\ q.parallel \notin {"str", "float"}
    [] q.form = "loss" -> Callable1(q.loss)
    [] q.form = "detector" -> q.surface >= 1 /\ q.distance = 2
    [] q.form = "emission" -> q.lines # "no lines"
    [] q.form = "material" -> q.fractions = q.compositions /\ q.fractions > 0 /\ (q.fractions = 2 => q.shape = <<3, 3>>)
    [] q.form = "scatter" -> q.angle \/ q.detector
    [] q.form = "bias" -> Dims(q.recs) > Dims(q.ref) /\ SubSeq(q.recs, Dims(q.recs) - Dims(q.ref) + 1, Dims(q.recs)) = q.ref
    [] q.form = "snip" -> q.kernel = 5 \/ (q.kernel >= 1 /\ q.kernel <= q.dims)
    [] q.form = "fbp" -> q.dims = 2
    [] q.form = "qr" -> q.decoding # "other"
    [] q.form = "plot" -> q.det = 2 /\ q.angles = 1 /\ q.vol = 3

-----------------------------------------------------------------------------
VARIABLES req, state
vars == <<req, state>>
Init == /\ state = "asked"
        /\ \E f \in DOMAIN Requests : req \in Requests[f]
Answer == state = "asked" /\ Admissible(req) /\ state' = "answered" /\ UNCHANGED req
Refuse == state = "asked" /\ ~Admissible(req) /\ state' = "refused" /\ UNCHANGED req
Next == Answer \/ Refuse
Spec == Init /\ [][Next]_vars

EmitVerdict == state # "asked" => Emit([req |-> req, ok |-> state = "answered"])
(* both verdicts exist for each entry point, or one of them would never be tried *)
Decided == \A f \in DOMAIN Requests : (\E q \in Requests[f] : Admissible(q)) /\ (\E q \in Requests[f] : ~Admissible(q))
ASSUME Decided
=============================================================================
