------------------------------- MODULE Trace -------------------------------
(*
 Trace validation. TRACE_FILE holds sessions recorded from the real code; each session is a sequence of call events.
 A behaviour of this specification picks one session and consumes its events in order; `st` is the abstract state of the
 system model (registers of the session machine, cache of the exploration machine, accumulated symmetries, ...).
 An event the model does not allow is reported (REJECT session position clauses) and ends the session.
*)
EXTENDS Integers, Sequences, TLC, TLCExt, Json, IOUtils, T_Algebra, T_Session, T_Conversion, T_Tools, T_Crystal, T_Transform, T_Symmetry, T_Lie, T_Search, T_Matrix, T_Print

Traces == JsonDeserialize(IOEnv.TRACE_FILE).sessions
VARIABLES sid, pos, st, ok
vars == <<sid, pos, st, ok>>

Fail(s, ev) ==
    IF ev.mut # <<>> THEN {"argument-modified"} ELSE
    CASE ev.op = "pair" -> Fail_pair(ev)
      [] ev.op = "pairrej" -> Fail_pairrej(ev)
      [] ev.op = "opop" -> Fail_opop(ev)
      [] ev.op = "oprej" -> Fail_oprej(ev)
      [] ev.op = "sc" -> Fail_sc(ev)
      [] ev.op = "liou" -> Fail_liou(ev)
      [] ev.op = "mkstr" -> Fail_mkstr(ev)
      [] ev.op = "parse" -> Fail_parse(ev)
      [] ev.op = "name" -> Fail_name(ev)
      [] ev.op = "streq" -> Fail_streq(ev)
      [] ev.op = "sinit" -> {}
      [] ev.op = "sstep" -> Fail_sstep(s, ev)
      [] ev.op = "conv" -> Fail_conv(ev)
      [] ev.op = "convrej" -> Fail_convrej(ev)
      [] ev.op = "cmat" -> Fail_cmat(ev)
      [] ev.op = "cmatr" -> Fail_cmatr(ev)
      [] ev.op = "cmatsub" -> Fail_cmatsub(s, ev)
      [] ev.op = "cmattol" -> Fail_cmattol(s, ev)
      [] ev.op = "cinv" -> Fail_cinv(ev)
      [] ev.op = "cluster" -> Fail_cluster(ev)
      [] ev.op = "sign" -> Fail_sign(ev)
      [] ev.op = "sortsign" -> Fail_sortsign(ev)
      [] ev.op = "compare" -> Fail_compare(ev)
      [] ev.op = "cliques" -> Fail_cliques(ev)
      [] ev.op = "comps" -> Fail_comps(ev)
      [] ev.op = "argsort" -> Fail_argsort(ev)
      [] ev.op = "dups" -> Fail_dups(ev)
      [] ev.op = "compose" -> Fail_compose(ev)
      [] ev.op = "subst" -> Fail_subst(ev)
      [] ev.op = "gs" -> Fail_gs(ev)
      [] ev.op = "inter" -> Fail_inter(ev)
      [] ev.op = "sparsify" -> Fail_sparsify(ev)
      [] ev.op = "toolrej" -> Fail_toolrej(ev)
      [] ev.op = "lat" -> Fail_lat(ev)
      [] ev.op = "latidx" -> Fail_latidx(s, ev)
      [] ev.op = "latdist" -> Fail_latdist(s, ev)
      [] ev.op = "distb" -> Fail_distb(s, ev)
      [] ev.op = "symlat" -> Fail_symlat(ev)
      [] ev.op = "tmk" -> Fail_tmk(s, ev)
      [] ev.op = "tapply" -> Fail_tapply(s, ev)
      [] ev.op = "symmat" -> Fail_symmat(s, ev)
      [] ev.op = "solve" -> Fail_solve(s, ev)
      [] ev.op = "soltol" -> Fail_soltol(ev)
      [] ev.op = "gnew" -> Fail_gnew(ev)
      [] ev.op = "gadd" -> Fail_gadd(ev)
      [] ev.op = "ggen" -> Fail_ggen(s, ev)
      [] ev.op = "symbasis" -> Fail_symbasis(s, ev)
      [] ev.op = "lie_str" -> Fail_lie_str(ev)
      [] ev.op = "lie_ops" -> Fail_lie_ops(ev)
      [] ev.op = "xnew" -> {}
      [] ev.op = "xplore" -> Fail_xplore(s, ev)
      [] ev.op = "search" -> Fail_search(ev)
      [] ev.op = "smany" -> Fail_smany(ev)
      [] ev.op = "smany2" -> Fail_smany2(ev)
      [] ev.op = "trunc" -> Fail_trunc(ev)
      [] ev.op = "hifi" -> Fail_hifi(ev)
      [] ev.op = "mat" -> Fail_mat(ev)
      [] ev.op = "tmat" -> Fail_tmat(ev)
      [] ev.op = "tovec" -> Fail_tovec(ev)
      [] ev.op = "tconf" -> Fail_tconf(ev)
      [] ev.op = "tvec" -> Fail_tvec(ev)
      [] ev.op = "rdm" -> Fail_rdm(ev)
      [] ev.op = "renyi" -> Fail_renyi(ev)
      [] ev.op = "dgrej" -> Fail_dgrej(ev)
      [] ev.op = "eig" -> Fail_eig(ev)
      [] ev.op = "tb" -> Fail_tb(ev)
      [] ev.op = "bdg" -> Fail_bdg(ev)
      [] ev.op = "quad" -> Fail_quad(ev)
      [] ev.op = "cross" -> Fail_cross(ev)
      [] ev.op = "relab" -> Fail_relab(s, ev)
      [] ev.op = "pr" -> Fail_pr(s, ev)
      [] ev.op = "strs" -> Fail_strs(ev)
      [] ev.op = "prrej" -> Fail_prrej(ev)
      [] OTHER -> {"unknown-event:" \o ev.op}

After(s, ev) ==
    CASE ev.op = "sinit" -> SessInit(ev)
      [] ev.op = "sstep" -> SessAfter(s, ev)
      [] ev.op = "cmat" -> After_cmat(s, ev)
      [] ev.op = "lat" -> After_lat(s, ev)
      [] ev.op = "tmk" -> After_tmk(s, ev)
      [] ev.op = "gnew" -> After_gnew(s, ev)
      [] ev.op = "gadd" -> After_gadd(s, ev)
      [] ev.op = "xplore" -> After_xplore(s, ev)
      [] ev.op = "xnew" -> After_xnew(s, ev)
      [] OTHER -> s

Init == /\ sid \in 1 .. Len(Traces) /\ pos = 0 /\ st = <<>> /\ ok = TRUE
Next ==
    /\ ok /\ pos < Len(Traces[sid])
    /\ LET ev == Traces[sid][pos + 1]
           bad == TLCEval(Fail(st, ev))
       IN /\ IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", sid, pos + 1, bad>>)
          /\ ok' = (bad = {})
          /\ pos' = pos + 1
          /\ st' = IF bad = {} THEN After(st, ev) ELSE st
    /\ UNCHANGED sid
Spec == Init /\ [][Next]_vars
=============================================================================
