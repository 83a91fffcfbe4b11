------------------------------- MODULE Params -------------------------------
(* Consistency of a configuration: which parameters the choices made in it  *)
(* require, and which they make meaningless.  A boolean parameter is "T",   *)
(* "F" or "" (absent); other parameters are "" when absent.  op.c is the    *)
(* configuration.                                                           *)
EXTENDS Base
CONSTANTS Scenes,    \* the parts of a configuration explored exhaustively
          Acts

InitSt == [outs |-> <<>>]

Rule(cond, present, miss, unused) == [cond |-> cond, present |-> present, miss |-> miss, unused |-> unused]
Forbid(cond, msg) == [cond |-> cond, present |-> FALSE, miss |-> msg, unused |-> ""]
Miss(x) == "Missing parameter " \o x
Unused(x) == "Unused parameter " \o x
Dep(cond, present, name) == Rule(cond, present, Miss(name), Unused(name))
Req(cond, present, name) == Rule(cond, present, Miss(name), "")
In1(s, x) == \E i \in DOMAIN s : s[i] = x
AnyModel(c, P(_)) == \E i \in DOMAIN c.models : P(c.models[i])

TplFits == {"tplFit", "tplFitAuto"}
Tpls == {"tplRatio", "tplCorr"}
\* values read from a section that may be absent
TF(m, f) == IF m.tf.on THEN m.tf[f] ELSE ""
TC(m, f) == IF m.tc.on THEN m.tc[f] ELSE ""
LM(m, f) == IF m.lm.on THEN m.lm[f] ELSE ""
LMeas(m, f) == IF m.lmeas.on THEN m.lmeas[f] ELSE ""
CFft(m) == m.lm.on /\ m.lm.cfit /\ m.lm.cfft = "T"
\* the measurement method counts only if its stage is enabled
LMeasMethod(m) == In1(m.stages, "lineMeasSolver") /\ m.lmeas.on

Photometry(m) == CASE m.rs = "lineModelSolve" -> LM(m, "enablePhotometry") = "T"
                 [] m.rs = "templateFittingSolve" -> TF(m, "phot") = "T"
                 [] m.rs = "tplCombinationSolve" -> TC(m, "phot") = "T"
                 [] OTHER -> FALSE
NeedsContinuum(m) ==
  \/ TF(m, "comp") \notin {"", "raw"} \/ TC(m, "comp") \notin {"", "raw"}
  \/ LM(m, "continuumComponent") \in {"fromSpectrum", "tplFitAuto"}
  \/ LM(m, "continuumReestimation") \notin {"", "no"}
NeedsTplContinuum(m) == TF(m, "comp") \notin {"", "raw"} \/ TC(m, "comp") \notin {"", "raw"}
NeedsLsf(m) == m.rs = "lineModelSolve" \/ In1(m.stages, "lineMeasSolver")

KernelRules(s) ==
  LET irr == s.on /\ s.method = "irregularSamplingMedian" IN
  <<Dep(irr, s.on /\ s.width # "", "continuumRemoval medianKernelWidth"),
    Dep(irr, s.on /\ s.refl # "", "continuumRemoval medianEvenReflection")>>

General(c) ==
  <<Dep(AnyModel(c, Photometry), c.photdir, "photometryTransmissionDir"),
    Dep(AnyModel(c, Photometry), c.photband > 0, "photometryBand"),
    Forbid(c.filters = "dict", "Input filters json must be a list"),
    Forbid(c.filters \in {"missing", "missmid", "extra"}, "Filters: each dictionary in json list must have exactly the following keys ['key', 'instruction', 'value']"),
    Forbid(c.filters \in {"key", "key1", "keymid"} /\ ~c.addcol, "Unknown filter key zz"),
    Dep(AnyModel(c, NeedsLsf), c.lsf # "", "lsf"),
    Dep(c.lsf = "gaussianConstantWidth", "width" \in Range1(c.lsfhas) /\ c.lsf # "", "lsf width"),
    Dep(c.lsf \in {"gaussianNISPVSSPSF201707", "GaussianNISPSIM201707"}, "sourceSize" \in Range1(c.lsfhas) /\ c.lsf # "", "lsf sourceSize"),
    Dep(c.lsf = "gaussianConstantResolution", "resolution" \in Range1(c.lsfhas) /\ c.lsf # "", "lsf resolution"),
    Dep(c.lsf = "gaussianVariableWidth", "file" \in Range1(c.lsfhas) /\ c.lsf # "", "lsf gaussianVariableWidthFileName"),
    Dep(AnyModel(c, NeedsContinuum), c.cr.on, "continuumRemoval")>>
  \o KernelRules(c.cr) \o
  <<Dep(AnyModel(c, NeedsTplContinuum), c.tcr.on, "templateCatalog continuumRemoval")>>
  \o KernelRules(c.tcr)

VelParams == <<"emVelocityFitMin", "emVelocityFitMax", "absVelocityFitMin", "absVelocityFitMax">>

\* a dependent parameter whose error and warning name it differently
Dep2(cond, present, miss, unused) == Rule(cond, present, Miss(miss), Unused(unused))

ModelRules(c, m) ==
  LET n == m.m
      lm == m.lm
      tpl == LM(m, "lineRatioType") \in Tpls
      lmname(x) == "lineModelSolve " \o x
  IN
  <<Dep(In1(m.stages, "lineMeasSolver"), m.lmeas.on, n \o " lineMeasSolver"),
    Dep2(LMeasMethod(m), m.dz # "", "lineMeasDzHalf for object " \o n, "object " \o n \o " lineMeasDzHalf"),
    Dep2(LMeasMethod(m), m.dstep # "", "lineMeasRedshiftStep for object " \o n, "object " \o n \o " lineMeasRedshiftStep"),
    Dep2(LMeas(m, "lineRatioType") = "rules", LMeas(m, "rules") # "",
         "lineMeasSolve rules for object " \o n, "object " \o n \o " LineMeasSolve rules"),
    Dep2(LMeas(m, "fittingMethod") = "lbfgsb", LMeas(m, "velocityFit") # "",
         "lineMeasSolve velocityFit for object " \o n, "object " \o n \o " LineMeasSolve velocityFit")>>
  \o [i \in 1..4 |-> Dep2(LMeas(m, "velocityFit") = "T", m.lmeas.on /\ In1(m.lmeas.vel, VelParams[i]),
         "lineMeasSolve " \o VelParams[i] \o " for object " \o n, "object " \o n \o " LineMeasSolve " \o VelParams[i])]
  \o <<
    IF LMeasMethod(m)
    THEN Dep2(m.lmeas.lya /\ m.lmeas.profile = "asym", m.lmeas.lya /\ m.lmeas.asym,
              "lineMeasSolve linemodel lya asymProfile section for object " \o n,
              "object " \o n \o " lineMeasSolve linemodel lya asymProfile section")
    ELSE Forbid(FALSE, ""),
    Dep(In1(m.stages, "reliabilitySolver"), m.rel, n \o " reliabilitySolver"),
    Dep2(m.rs = "templateFittingSolve", m.tf.on, "templateFittingSolve for object " \o n, "object " \o n \o " templateFittingSolve"),
    Req(TF(m, "ism") = "T", c.ebmv, "ebmv"),
    Dep(TF(m, "phot") = "T", m.tf.on /\ m.tf.weight, "object " \o n \o " TemplateFittingSolve photometry weight"),
    Forbid(TF(m, "fft") = "T" /\ TF(m, "phot") = "T",
       "Template fitting: cannot activate both fft and photometry. Please deactivate templateFittingSolve.fftProcessing or templateFittingSolve.enablePhotometry on spectrum model " \o n),
    Dep2(m.rs = "tplCombinationSolve", m.tc.on, "tplCombinationSolve for object " \o n, "object " \o n \o " tplCombinationSolve"),
    Req(TC(m, "ism") = "T", c.ebmv, "ebmv"),
    Dep2(m.rs = "lineModelSolve", lm.on, "lineModelSolve for object " \o n, "object " \o n \o " lineModelSolve"),
    Rule(FALSE, LM(m, "improveBalmerFit") = "T" /\ LM(m, "lineRatioType") # "rules", "",
       "object " \o n \o " lineModelSolve lineRatioType must be rules to activate improveBalmerFit"),
    Dep2(LM(m, "lineRatioType") = "rules", LM(m, "rules") # "", "lineModelSolve rules for object " \o n, "object " \o n \o " lineModelSolve rules"),
    Dep2(tpl, LM(m, "tplRatioCatalog") # "", "lineModelSolve tplRatioCatalog for object " \o n, "object " \o n \o " lineModelSolve tplRatioCatalog"),
    Dep2(tpl, LM(m, "tplRatioIsmFit") # "", "lineModelSolve tplRatioIsmFit for object " \o n, "object " \o n \o " lineModelSolve tplRatioIsmFit"),
    Dep(LM(m, "continuumComponent") = "fromSpectrum", LM(m, "continuumReestimation") # "", "object " \o n \o " lineModelSolve continuumReestimation"),
    Forbid(CFft(m) /\ LM(m, "enablePhotometry") = "T",
       "Line model solve: cannot activate both fft and photometry. Please deactivate lineModelSolve.continuumFit.fftProcessing or lineModelSolve.enablePhotometry on spectrum model " \o n),
    Req(LM(m, "continuumComponent") \in TplFits, lm.on /\ lm.cfit, "object " \o n \o " lineModelSolve continuumFit"),
    Req(lm.on /\ lm.cfit /\ lm.cism = "T", c.ebmv, "ebmv"),
    \* ebmv without a use in this line model
    Rule(FALSE, FALSE, "", ""),
    Dep(LM(m, "skipSecondPass") = "F", lm.on /\ lm.p2, "object " \o n \o " lineModelSolve secondPass"),
    Req(lm.on /\ lm.p2 /\ LM(m, "continuumComponent") \in TplFits, lm.on /\ lm.p2 /\ lm.p2fit # "", "object " \o n \o " lineModelSolve secondpass continuumFit"),
    Dep(tpl, lm.on /\ lm.p1 /\ lm.p1ism # "", "object " \o n \o " lineModelSolve firstpass tplRatioIsmFit"),
    Forbid(lm.on /\ lm.p1 /\ lm.p1n > 0 /\ lm.n > 0 /\ lm.p1n < lm.n,
       "linemodel.firstpass.extremaCount is lower than linemodel.extremaCount for object " \o n),
    IF m.rs = "lineModelSolve"
    THEN Dep2(lm.on /\ lm.lya /\ lm.profile = "asym", lm.on /\ lm.lya /\ lm.asym,
              "lineModelSolve linemodel lya asymProfile section for object " \o n,
              "object " \o n \o " lineModelSolve lineModel lya asymProfile section")
    ELSE Forbid(FALSE, ""),
    Dep(LM(m, "continuumComponent") \in TplFits /\ CFft(m), LM(m, "useLogLambdaSampling") # "", n \o " lineModelSolve lineModel useLogLambdaSampling"),
    Dep(m.rs \in {"templateFittingSolve", "tplCombinationSolve"} \/ (m.rs = "lineModelSolve" /\ LM(m, "continuumComponent") \in TplFits),
        m.tdir # "", n \o " templateDir")>>

Rules(c) == General(c) \o FlattenSeq([i \in DOMAIN c.models |-> ModelRules(c, c.models[i])])

Broken(c) == LET rs == Rules(c) IN {rs[i].miss : i \in {j \in DOMAIN rs : rs[j].cond /\ ~rs[j].present}}
Warned(c) == LET rs == SelectSeq(Rules(c), LAMBDA r : ~r.cond /\ r.present /\ r.unused # "")
             IN [i \in DOMAIN rs |-> IF rs[i].miss = "" THEN rs[i].unused ELSE rs[i].unused]

(* Normalisation: what the choices make meaningless takes its neutral value *)
Absent == "-"
Show(v) == IF v = "" THEN Absent ELSE IF v \in {"T", "F"} THEN v ELSE v
NormSection(s, needed) ==
  LET base == IF needed THEN s ELSE [on |-> TRUE, method |-> "default", width |-> "-1", refl |-> "T"]
      irr == s.on /\ s.method = "irregularSamplingMedian"
  IN IF irr THEN [method |-> Show(base.method), width |-> Show(base.width), refl |-> Show(base.refl)]
     ELSE [method |-> IF base.on THEN Show(base.method) ELSE Absent, width |-> "-1", refl |-> "T"]
NormModel(m) ==
  [reest |-> IF LM(m, "fittingMethod") = "hybrid" THEN Show(LM(m, "continuumReestimation")) ELSE "no",
   ulls |-> IF LM(m, "continuumComponent") \in TplFits /\ CFft(m) THEN Show(LM(m, "useLogLambdaSampling")) ELSE "F"]
Norm(c) == [cr |-> NormSection(c.cr, AnyModel(c, NeedsContinuum)),
            tcr |-> NormSection(c.tcr, AnyModel(c, NeedsTplContinuum)),
            models |-> [i \in DOMAIN c.models |-> NormModel(c.models[i])]]

\* a meaningless continuumReestimation that alone asked for a continuum
\* removal is only neutralised with the first normalisation
NeedsAfter(m) ==
  NeedsContinuum(IF LM(m, "fittingMethod") = "hybrid" THEN m ELSE [m EXCEPT !.lm.continuumReestimation = "no"])
Stable(c) == AnyModel(c, NeedsContinuum) <=> AnyModel(c, NeedsAfter)

Apply(s, o) ==
  CASE o.a = "check" ->
         R(s, IF Broken(o.c) # {}
              THEN [ret |-> "INVALID_PARAMETER_FILE", broken |-> Broken(o.c), same |-> TRUE]
              ELSE [ret |-> "ok", warns |-> Warned(o.c), same |-> TRUE,
                    mask |-> IF Warned(o.c) = <<>> THEN "" ELSE "UNUSED_PARAMETER"])
  [] o.a = "extend" ->
         LET n == Norm(o.c) IN
         R([outs |-> Append(s.outs, [cr |-> n.cr.width, tcr |-> n.tcr.width])],
           [ret |-> "ok", input_unchanged |-> TRUE, idempotent |-> Stable(o.c), kept |-> TRUE, out |-> n])
  [] o.a = "version" ->   \* the same configuration written in schema version o.v
         R(s, [ret |-> "ok", input_unchanged |-> TRUE, kept |-> TRUE, out |-> Norm(o.c)])
  [] o.a = "poke" ->
         LET n == [s.outs EXCEPT ![o.i] = IF o.t THEN [@ EXCEPT !.tcr = ToString(o.v)] ELSE [@ EXCEPT !.cr = ToString(o.v)]]
         IN R([outs |-> n], [ret |-> "ok", all |-> n])

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
Match(e, b) ==
  /\ "ret" \in DOMAIN b
  /\ e.ret = b.ret
  /\ IF "broken" \in DOMAIN e
     THEN b.msg \in e.broken /\ b.same
     ELSE IF "warns" \in DOMAIN e
     THEN /\ \A x \in Range1(e.warns) \cup Range1(b.warns) : Count(e.warns, x) = Count(b.warns, x)
          /\ b.same /\ b.mask = e.mask
     ELSE e = b
Inv(s) == TRUE
\* a refused configuration names a broken rule; an accepted one has none
StepOK(s, o, r) == o.a = "check" => (r.obs.ret = "ok" <=> Broken(o.c) = {})

-----------------------------------------------------------------------------
(* Exhaustive scenes around one coherent configuration of each method.      *)
B3 == {"T", "F", ""}
NoTf == [on |-> FALSE, ism |-> "", fft |-> "", phot |-> "", igm |-> "", weight |-> FALSE, comp |-> ""]
NoTc == [on |-> FALSE, ism |-> "", phot |-> "", comp |-> ""]
NoLm == [on |-> FALSE, lineRatioType |-> "", rules |-> "", improveBalmerFit |-> "", tplRatioCatalog |-> "", tplRatioIsmFit |-> "",
         continuumComponent |-> "", continuumReestimation |-> "", fittingMethod |-> "", skipSecondPass |-> "",
         useLogLambdaSampling |-> "", enablePhotometry |-> "", cfit |-> FALSE, cfft |-> "", cism |-> "", p2 |-> FALSE, p2fit |-> "",
         p1 |-> FALSE, p1ism |-> "", p1n |-> 0, n |-> 0, lya |-> FALSE, profile |-> "", asym |-> FALSE]
NoLmeas == [on |-> FALSE, lineRatioType |-> "", rules |-> "", fittingMethod |-> "", velocityFit |-> "", vel |-> <<>>,
            lya |-> FALSE, profile |-> "", asym |-> FALSE]
Plain == [m |-> "galaxy", stages |-> <<"redshiftSolver">>, rs |-> "", tdir |-> "", dz |-> "", dstep |-> "", rel |-> FALSE,
          lmeas |-> NoLmeas, tf |-> NoTf, tc |-> NoTc, lm |-> NoLm]
NoCr == [on |-> FALSE, method |-> "", width |-> "", refl |-> ""]
Cfg0 == [photdir |-> FALSE, photband |-> -1, filters |-> "none", addcol |-> FALSE, ebmv |-> TRUE, lsf |-> "", lsfhas |-> <<>>,
         cr |-> NoCr, tcr |-> NoCr, models |-> <<Plain>>]
With(c, m) == [c EXCEPT !.models = <<m>>]
TfModel == [Plain EXCEPT !.rs = "templateFittingSolve", !.tdir = "t", !.tf = [NoTf EXCEPT !.on = TRUE, !.comp = "raw"]]
LmModel == [Plain EXCEPT !.rs = "lineModelSolve", !.tdir = "t",
             !.lm = [NoLm EXCEPT !.on = TRUE, !.lineRatioType = "rules", !.rules = "all", !.continuumComponent = "tplFit",
                      !.cfit = TRUE, !.skipSecondPass = "T", !.fittingMethod = "individual"]]
LmCfg == [With(Cfg0, LmModel) EXCEPT !.lsf = "fromSpectrumData"]

Crs == {NoCr} \cup {[on |-> TRUE, method |-> x, width |-> w, refl |-> r] :
                    x \in {"", "zero", "irregularSamplingMedian"}, w \in {"", "5"}, r \in B3}
Scene(k) ==
  CASE k = "lsf" -> {[LmCfg EXCEPT !.lsf = t, !.lsfhas = h] :
         t \in {"", "gaussianConstantWidth", "gaussianConstantResolution", "gaussianNISPSIM2016", "gaussianNISPVSSPSF201707", "fromSpectrumData", "gaussianVariableWidth"},
         h \in {<<>>, <<"width">>, <<"resolution">>, <<"sourceSize">>, <<"file">>, <<"width", "file">>}}
       \cup {[Cfg0 EXCEPT !.lsf = t, !.lsfhas = <<"width">>] : t \in {"", "gaussianConstantWidth"}}
  [] k = "filters" -> {[Cfg0 EXCEPT !.filters = f, !.addcol = a] : f \in {"none", "ok", "empty", "key", "key1", "keymid", "missing", "missmid", "extra", "dict"}, a \in BOOLEAN}
  [] k = "tf" -> {[With(Cfg0, [TfModel EXCEPT !.rs = rs, !.tdir = d, !.tf = [on |-> on, ism |-> i, fft |-> f, phot |-> p, igm |-> "", weight |-> w, comp |-> "raw"]])
                    EXCEPT !.ebmv = e, !.photdir = (p = "T"), !.photband = IF p = "T" THEN 1 ELSE -1] :
         rs \in {"", "templateFittingSolve"}, d \in {"", "t"}, on \in BOOLEAN, i \in B3, f \in {"T", "F"}, p \in {"T", ""}, w \in BOOLEAN, e \in BOOLEAN}
  [] k = "phot" -> {[With(Cfg0, [Plain EXCEPT !.rs = rs, !.tdir = "t", !.tf = [NoTf EXCEPT !.on = rs = "templateFittingSolve", !.phot = p, !.weight = TRUE],
                                !.tc = [NoTc EXCEPT !.on = rs = "tplCombinationSolve", !.phot = p],
                                !.lm = [LmModel.lm EXCEPT !.on = rs = "lineModelSolve", !.enablePhotometry = p]])
                     EXCEPT !.photdir = d, !.photband = b, !.lsf = IF rs = "lineModelSolve" THEN "fromSpectrumData" ELSE ""] :
         rs \in {"templateFittingSolve", "tplCombinationSolve", "lineModelSolve"}, p \in B3, d \in BOOLEAN, b \in {-1, 0, 2}}
  [] k = "cr" -> {[With(Cfg0, [TfModel EXCEPT !.tf.comp = x]) EXCEPT !.cr = a, !.tcr = b] :
         x \in {"raw", "noContinuum"}, a \in Crs, b \in {NoCr, [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""], [on |-> TRUE, method |-> "irregularSamplingMedian", width |-> "5", refl |-> "F"]}}
       \cup {[With(Cfg0, [TfModel EXCEPT !.tf.comp = x]) EXCEPT !.cr = b, !.tcr = a] :
         x \in {"raw", "noContinuum"}, a \in Crs, b \in {NoCr, [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""]}}
  [] k = "tc" -> {[With(Cfg0, [Plain EXCEPT !.rs = rs, !.tdir = "t", !.tc = [on |-> on, ism |-> i, phot |-> "", comp |-> x]]) EXCEPT !.ebmv = e,
                    !.cr = IF y THEN [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""] ELSE NoCr,
                    !.tcr = IF y THEN [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""] ELSE NoCr] :
         rs \in {"", "tplCombinationSolve"}, on \in BOOLEAN, i \in B3, x \in {"", "raw", "continuum"}, e \in BOOLEAN, y \in BOOLEAN}
  [] k = "lmeas" -> {[With(Cfg0, [Plain EXCEPT !.stages = st, !.dz = d, !.dstep = d2,
                       !.lmeas = [NoLmeas EXCEPT !.on = on, !.lineRatioType = t, !.rules = r, !.lya = TRUE, !.profile = pr, !.asym = as]])
                       EXCEPT !.lsf = "fromSpectrumData"] :
         st \in {<<>>, <<"lineMeasSolver">>}, d \in {"", "1"}, d2 \in {"", "1"}, on \in BOOLEAN, t \in {"rules", "tplRatio"}, r \in {"", "all"}, pr \in {"asym", "igm"}, as \in BOOLEAN}
  [] k = "vel" -> {[With(Cfg0, [Plain EXCEPT !.stages = <<"lineMeasSolver">>, !.dz = "1", !.dstep = "1",
                       !.lmeas = [NoLmeas EXCEPT !.on = TRUE, !.fittingMethod = f, !.velocityFit = v, !.vel = w]])
                       EXCEPT !.lsf = "fromSpectrumData"] :
         f \in {"lbfgsb", "hybrid"}, v \in B3, w \in {SelectSeq(VelParams, LAMBDA x : x \in S) : S \in SUBSET Range1(VelParams)}}
  [] k = "lmratio" -> {With(LmCfg, [LmModel EXCEPT !.rs = rs, !.lm = [LmModel.lm EXCEPT !.lineRatioType = t, !.rules = r, !.improveBalmerFit = b,
                        !.tplRatioCatalog = x, !.tplRatioIsmFit = i, !.p1 = TRUE, !.p1ism = j]]) :
         rs \in {"lineModelSolve"}, t \in {"rules", "tplRatio", "tplCorr"}, r \in {"", "all"}, b \in {"T", "F"}, x \in {"", "c"}, i \in {"", "F"}, j \in {"", "F"}}
  [] k = "lmcont" -> {[With(LmCfg, [LmModel EXCEPT !.tdir = d, !.lm = [LmModel.lm EXCEPT !.continuumComponent = t, !.continuumReestimation = r,
                        !.cfit = cf, !.cfft = f, !.useLogLambdaSampling = u, !.p2 = p2, !.p2fit = IF p2 THEN q ELSE "", !.skipSecondPass = IF p2 THEN "F" ELSE "T"]])
                        EXCEPT !.cr = IF y THEN [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""] ELSE NoCr] :
         d \in {"", "t"}, t \in {"fromSpectrum", "tplFit", "tplFitAuto", "noContinuum"}, r \in {"", "no", "always"}, cf \in BOOLEAN, f \in {"T", "F"},
         u \in {"", "F"}, p2 \in BOOLEAN, q \in {"", "fromFirstPass"}, y \in BOOLEAN}
  [] k = "lmmisc" -> {[With(LmCfg, [LmModel EXCEPT !.rs = rs, !.rel = rel, !.stages = st, !.lm = [LmModel.lm EXCEPT !.cism = i, !.cfft = f, !.useLogLambdaSampling = IF f = "T" THEN "F" ELSE "", !.enablePhotometry = ph,
                        !.skipSecondPass = sk, !.p2 = p2, !.p2fit = IF pr = "igm" THEN "x" ELSE "", !.lya = TRUE, !.profile = pr, !.asym = as]])
                        EXCEPT !.ebmv = e, !.photdir = (ph = "T"), !.photband = IF ph = "T" THEN 2 ELSE -1] :
         rs \in {"lineModelSolve", ""}, rel \in BOOLEAN, st \in {<<>>, <<"redshiftSolver", "reliabilitySolver">>}, i \in {"T", "F"}, f \in {"T", "F"}, ph \in {"T", "F"},
         sk \in B3, p2 \in BOOLEAN, pr \in {"asym", "igm"}, as \in BOOLEAN, e \in BOOLEAN}
  [] k = "lmext" -> {With(LmCfg, [LmModel EXCEPT !.lm = [LmModel.lm EXCEPT !.p1 = p, !.p1n = a, !.n = b]]) : p \in BOOLEAN, a \in 0..3, b \in 0..3}

Mini == {[With(Cfg0, [TfModel EXCEPT !.tf.comp = x]) EXCEPT !.cr = a, !.tcr = b] :
          x \in {"raw", "noContinuum"}, a \in {NoCr, [on |-> TRUE, method |-> "irregularSamplingMedian", width |-> "5", refl |-> "F"]},
          b \in {NoCr, [on |-> TRUE, method |-> "zero", width |-> "", refl |-> ""]}}
Ops(s) ==
     (IF "check" \in Acts THEN UNION {{[a |-> "check", c |-> x] : x \in Scene(k)} : k \in Scenes} ELSE {})
  \cup (IF "extend" \in Acts THEN UNION {{[a |-> "extend", c |-> x] : x \in Scene(k)} : k \in Scenes} ELSE {})
  \cup (IF "mini" \in Acts THEN {[a |-> "extend", c |-> x] : x \in Mini} ELSE {})
  \cup (IF "poke" \in Acts THEN [a : {"poke"}, i : DOMAIN s.outs, t : BOOLEAN, v : 7..8] ELSE {})
SimOps(s) == {}
=============================================================================
