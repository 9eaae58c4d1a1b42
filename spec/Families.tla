------------------------------- MODULE Families -------------------------------
(* Stateless event families: every family has its own module.               *)
EXTENDS Heap, CFReplay, Compression, Eig, PovmFun, Factory, Utils, Physics, PovmCons

FamBad(e) ==
  CASE e.fam = "cf" -> CFBad(e)
    [] e.fam = "svdgen" -> SvdGenBad(e)
    [] e.fam = "vargen" -> VarGenBad(e)
    [] e.fam = "varbad" -> VarBadBad(e)
    [] e.fam = "eig" -> EigBad(e)
    [] e.fam = "eigdiag" -> EigDiagBad(e)
    [] e.fam = "random" -> RandBad(e)
    [] e.fam = "normal" -> NormalBad(e)
    [] e.fam = "densefun" -> DenseFunBad(e)
    [] e.fam = "named" -> NamedBad(e)
    [] e.fam = "proj" -> ProjBad(e)
    [] e.fam = "svd" -> SvdBad(e)
    [] e.fam = "cyc" -> CycBad(e)
    [] e.fam = "xy" -> XYBad(e)
    [] e.fam = "xye0" -> XYE0Bad(e)
    [] e.fam = "localpovm" -> LocalBad(e)
    [] e.fam = "povmcons" -> ConsBad(e)
    [] e.fam = "pmf" -> PmfBad(e)
    [] e.fam = "tiny" -> TinyBad(e)
    [] e.fam = "stat" -> StatBad(e)
    [] e.fam = "pack" -> PackBad(e)
    [] e.fam = "packtype" -> PackTypeBad(e)
    [] e.fam = "packbig" -> PackBigBad(e)
    [] e.fam = "repro" -> ReproBad(e)
    [] e.fam = "reject" -> RejectBad(e)
    [] e.fam = "matchlab" -> MatchLabBad(e)
    [] e.fam = "fullrank" -> FullRankBad(e)
    [] e.fam = "estfrom" -> EstFromBad(e)
    [] e.fam = "estmpps" -> EstMppsBad(e)
    [] e.fam = "estpart" -> EstPartBad(e)
    [] e.fam = "slices" -> SlicesBad(e)
    [] e.fam = "match" -> MatchBad(e)
    [] e.fam = "lfun" -> LfunBad(e)
    [] e.fam = "estlfun" -> EstLfunBad(e)
    [] e.fam = "listlfun" -> ListLfunBad(e)
    [] e.fam = "listest" -> ListEstBad(e)
    [] e.fam = "lfunfrom" -> LfunFromBad(e)
    [] e.fam = "estlfunfrom" -> EstLfunFromBad(e)
=============================================================================
