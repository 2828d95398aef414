------------------------------ MODULE T_Search ------------------------------
(* Acceptance of the cached exploration (C18) and of the selected-CI searches (C19). *)
EXTENDS Search, T_Algebra, LinAlg, Transform

(* xnew: a new cache for the Hamiltonian H (integer coefficients, e = 0) *)
HSeq(op) == [h \in 1 .. Len(op.s) |-> [s |-> op.s[h], c |-> op.c[h][1]]]
After_xnew(s, ev) == [H |-> HSeq(ev.H), eb |-> <<>>, xb |-> <<>>]
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p

(* xplore: query with basis B, all or allowed labels A; L, ext: answer; eb, xb: cache afterwards *)
Fail_xplore(s, ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET D == TLCEval(Direct(s.H, ev.B, ev.all = 1, ToS(ev.A))) L == ev.L IN
    If(NoDup(ev.ext), "ext:duplicate") \cup If(ToS(ev.ext) = D.ext, "ext:set")
    \cup If(IsPrefixOf(s.eb, ev.eb) /\ IsPrefixOf(s.xb, ev.xb), "cache:altered")
    \cup If(NoDup(ev.eb) /\ NoDup(ev.xb) /\ ToS(ev.eb) = ToS(s.eb) \cup ToS(ev.B), "cache:explored")
    \cup If(D.ext \subseteq ToS(ev.xb), "cache:extended")
    \cup IF ~ (L.x = 1 /\ L.n = Len(ev.ext) /\ L.m = Len(ev.B) /\ InShape(L)) THEN {"L:shape"} ELSE
         If(\A j \in 1 .. Len(ev.B) : EqScaled(D.cols[j], 0, MColStr(L, j, ev.ext), L.e), "L:value")
After_xplore(s, ev) == [s EXCEPT !.eb = ev.eb, !.xb = ev.xb]

-----------------------------------------------------------------------------
(* Searches. Operators ops[i] and best have coefficients over 2^24; norms are over 2^14.
   ev: variant; Hs: the commuting operators (first: the Hamiltonian, e = 0); init; ops, norms, best, bestn; steps, nH, nO, max
   (per step), thr (over 2^24); orth (e = 0), words (transformations); certs (per operator, possibly empty); labels *)
Sq14(v) == LET a == AbsI(v) h == a \div 128 l == a % 128 IN h * h + (h * l) \div 64 + (l * l) \div 16384
Sq17(v) == LET a == AbsI(v) h == a \div 1024 l == a % 1024 IN h * h + (2 * h * l) \div 1024 + (l * l) \div 1048576
NormF(H, f) == \* <<norm, tolerance>> over 2^14, f over 2^17
    LET g == TLCEval(ComF(H, f)) w == TLCEval(ComAbs(H, DOMAIN f)) IN
    <<FoldSet(LAMBDA s, a : a + Sq17(g[s][1]) + Sq17(g[s][2]), 0, DOMAIN g),
      4 + FoldSet(LAMBDA s, a : a + 2 + ((Mag(LGet(g, s)) \div 16) * w[s]) \div 65536, 0, DOMAIN w)>>
F17(op) == DownF(OpFn(op), 7)
F14(op) == DownF(OpFn(op), 10)
Unit14(f) == AbsI(FoldSet(LAMBDA s, a : a + Sq14(f[s][1]) + Sq14(f[s][2]), 0, DOMAIN f) - 16384) <= 64 + 4 * Cardinality(DOMAIN f)
ShapeOp(op) == op.e = 24 /\ Len(op.s) = Len(op.c) /\ NoDup(op.s)

(* the operators a step may choose from: those obeying the constraint rows (integer, over the strings of the operator) *)
ConRows(strs, orth, words) ==
    LET n == Len(strs)
        inv(w) == LET a == TLCEval([j \in 1 .. n |-> ActStr(w, strs[j])]) IN      \* rows of S - I
            [i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> GSub(IF a[j].s = strs[i] THEN GIPow(a[j].k, G1) ELSE G0, IF i = j THEN G1 ELSE G0)])]
    IN SelectSeq([i \in 1 .. Len(orth) |-> LET f == OpFn(orth[i]) IN TLCEval([j \in 1 .. n |-> LGet(f, strs[j])])]
                 \o FoldLeft(LAMBDA r, w : r \o inv(w), <<>>, words), LAMBDA r : \E j \in 1 .. n : r[j] # G0)
(* certificate: orthonormal columns U, values lam, multipliers mu with C u = lam u + R^T mu and R u = 0, as many as there can be *)
CertOK(Cs, strs, R, c) ==
    LET n == Len(strs) cols == TLCEval([k \in 1 .. Len(Cs) |-> TLCEval(Direct(Cs[k], strs, TRUE, {}).cols)])
        C == TLCEval([i \in 1 .. n |-> TLCEval([j \in 1 .. n |-> FoldLeft(LAMBDA a, k : a + LInner(cols[k][i], cols[k][j])[1], 0, [k \in 1 .. Len(Cs) |-> k])])])
        abs == TLCEval([i \in 1 .. n |-> FoldLeft(LAMBDA a, x : a + AbsI(x), 0, C[i])])
        ra == TLCEval([i \in 1 .. n |-> FoldLeft(LAMBDA a, r : a + Mag(r[i]), 0, R)])
    IN /\ Len(c.U) = n - (IF R = <<>> THEN 0 ELSE Rank(R)) /\ Len(c.lam) = Len(c.U) /\ Len(c.mu) = Len(c.U)
       /\ \A k \in 1 .. Len(c.U) : /\ Len(c.U[k]) = n /\ Len(c.mu[k]) = Len(R)
             /\ \A r \in 1 .. Len(R) : RowKills(R[r], [j \in 1 .. n |-> <<c.U[k][j], 0>>])
             /\ \A i \in 1 .. n :
                  LET a == FoldLeft(LAMBDA z, j : z + C[i][j] * c.U[k][j], 0, [j \in 1 .. n |-> j])
                      b == FoldLeft(LAMBDA z, q : z + R[q][i][1] * c.mu[k][q], 0, [q \in 1 .. Len(R) |-> q])
                  IN AbsI(a - MulFix(c.lam[k], c.U[k][i]) - b) <= abs[i] \div 2 + ra[i] + AbsI(c.lam[k]) \div 16384 + 4
       /\ \A k, l \in 1 .. Len(c.U) : k <= l =>
             AbsI(FoldLeft(LAMBDA z, j : z + c.U[k][j] * c.U[l][j], 0, [j \in 1 .. n |-> j]) - (IF k = l THEN 268435456 ELSE 0)) <= n * 32768
MinLam(c) == FoldLeft(LAMBDA a, x : MinI(a, x), c.lam[1], c.lam)

Obeys(R, op) == \* the fixed-point coefficients of op (over 2^24) obey the rows; tolerance 2^-11
    \A i \in 1 .. Len(R) : GNear(GDot(R[i], [j \in 1 .. Len(op.c) |-> <<(op.c[j][1] + 512) \div 1024, (op.c[j][2] + 512) \div 1024>>]), G0, 8 + L1(R[i]))
Fail_rec(Hs, op, norm, orth, words, c, free) == \* one recorded operator
    IF ~ShapeOp(op) THEN {"search:operator"} ELSE
    LET f == TLCEval(F14(op)) nf == TLCEval(NormF(Hs[1], F17(op))) R == TLCEval(ConRows(op.s, orth, words)) IN
    If(Unit14(f), "search:normalized") \cup If(AbsI(nf[1] - norm) <= nf[2], "search:norm")
    \cup IF c = <<>> THEN {} ELSE
         IF ~CertOK(Hs, op.s, R, c[1]) THEN {"bad-certificate"} ELSE
         IF c[1].U = <<>> THEN {} ELSE
            If(Obeys(R, op), "search:constraint")
            \cup IF free THEN {} ELSE
                 LET tot == FoldLeft(LAMBDA a, H : LET z == NormF(H, F17(op)) IN <<a[1] + z[1], a[2] + z[2]>>, <<0, 0>>, Hs) IN
                 If(AbsI(tot[1] - MinLam(c[1])) <= 256 + tot[2], "search:minimal")
(* larger bases: a witness that obeys the constraints, which the recorded operator has to be as good as *)
Fail_wit(Hs, op, orth, words, w, free) ==
    LET R == TLCEval(ConRows(op.s, orth, words))
        tot(o) == FoldLeft(LAMBDA a, H : LET z == NormF(H, F17(o)) IN <<a[1] + z[1], a[2] + z[2]>>, <<0, 0>>, Hs)
    IN IF ~(w.s = op.s /\ Unit14(TLCEval(F14(w))) /\ Obeys(R, w)) THEN {"bad-certificate"} ELSE
       If(Obeys(R, op), "search:constraint")
       \cup IF free THEN {} ELSE LET a == tot(op) b == tot(w) IN If(a[1] <= b[1] + a[2] + b[2] + 256, "search:minimal")
Fail_best(ev) ==
    LET n == Len(ev.ops) IN
    IF n = 0 THEN If(EqScaled(OpFn(ev.best), ev.best.e, OpFn(ev.init), ev.init.e) /\ ev.bestn = 1073741824, "search:best-initial") ELSE
    LET m == FoldLeft(LAMBDA a, x : MinI(a, AbsI(x)), AbsI(ev.norms[1]), ev.norms) IN
    If(AbsI(AbsI(ev.bestn) - m) <= 1, "search:best-norm")
    \cup If(\E i \in 1 .. n : AbsI(AbsI(ev.norms[i]) - m) <= 1 /\ AbsI(ev.norms[i] - ev.bestn) <= 1 /\ ev.ops[i] = ev.best, "search:best-operator")

(* the bases of the recorded operators follow the machine *)
SetOf(op) == ToS(op.s)
ClosedUnder(words, S) == \A w \in ToS(words) : \A s \in S : ActStr(w, s).s \in S
Short(S, m) == IF m = 0 THEN S ELSE {s \in S : Len(s.l) <= m}      \* what the filters of the driver keep: strings of at most m factors
TruncTo(ev, i, lo, hi) == LET f == OpFn(ev.ops[i]) IN Trunc(RestrictF(f, Short(DOMAIN f, ev.tf)), lo, hi, ev.max[i])
TruncOf(ev, i, lo) == TruncTo(ev, i, lo, ev.thr + 1)
Bases_ci(ev, H, Grow(_, _), stops) ==
    LET n == Len(ev.ops) init == ToS(ev.init.s)
        prev(i) == IF i = 0 THEN init ELSE SetOf(ev.ops[i])                         \* expanded basis of step i
        grown(i) == IF i = 1 THEN [ok |-> TRUE, set |-> Grow(H, init)]
                    ELSE LET t == TruncOf(ev, i - 1, ev.thr - 1) IN [ok |-> t.ok, set |-> Grow(H, t.set)]
        cyc(i, S) == stops /\ (S = prev(i - 1) \/ (i >= 2 /\ S = prev(i - 2)))
    IN If(n <= ev.steps, "search:steps")
       \cup UNION {LET g == TLCEval(grown(i)) IN IF ~g.ok THEN {} ELSE If(SetOf(ev.ops[i]) = g.set /\ ~cyc(i, g.set), "search:expansion") : i \in 1 .. n}
       \cup IF n >= ev.steps THEN {} ELSE LET g == grown(n + 1) IN If(~g.ok \/ cyc(n + 1, g.set), "search:stopped")
LabelsOf(S) == UNION {ToS(s.l) : s \in S}
Bases_sweep(ev, H) ==
    LET maxl == Max(UNION {ToS(H[h].s.l) : h \in 1 .. Len(H)})
        step(z, site) == \* z: [b, prev, i, ok, bad]
            IF ~z.ok \/ z.bad # {} THEN z ELSE
            LET b == TLCEval(Short(SweepExpand(H, z.b, site, maxl), ev.pf)) i == z.i + 1 IN
            IF b = z.prev THEN [z EXCEPT !.b = b]
            ELSE IF i > Len(ev.ops) THEN [z EXCEPT !.bad = {"search:stopped"}]
            ELSE IF SetOf(ev.ops[i]) # b THEN [z EXCEPT !.bad = {"search:expansion"}]
            ELSE LET t == TruncOf(ev, i, ev.thr - 1) IN [z EXCEPT !.b = t.set, !.prev = b, !.i = i, !.ok = t.ok]
        sweep(z, k) == IF ~z.ok \/ z.bad # {} THEN z ELSE
            LET L == LabelsOf(z.b) a == Min(L) c == Max(L) m == c - a + 1 IN
            FoldLeft(step, z, [j \in 1 .. m |-> IF k % 2 = 1 THEN a + j - 1 ELSE c - j + 1])
        r == FoldLeft(sweep, [b |-> ToS(ev.init.s), prev |-> ToS(ev.init.s), i |-> 0, ok |-> TRUE, bad |-> {}], [k \in 1 .. ev.steps |-> k])
    IN r.bad \cup If(r.bad # {} \/ ~r.ok \/ r.i = Len(ev.ops), "search:extra-step")
F16(op) == IF op.e = 0 THEN LScale(<<65536, 0>>, OpFn(op)) ELSE DownF(OpFn(op), 8)
Bases_one(ev, H) ==
    LET n == Len(ev.ops)
        cur(i) == IF i = 0 THEN ev.init ELSE ev.ops[i]
        far(i) == ExtF(H, ExtF(H, ToS(cur(i).s))) \ ToS(cur(i).s)
    IN If(n <= ev.steps, "search:steps")
       \cup UNION {LET p == ToS(cur(i - 1).s) q == SetOf(ev.ops[i]) new == q \ p g == TLCEval(GreedyOne(H, p, F16(cur(i - 1)))) IN
                   If(p \subseteq q /\ Cardinality(new) = 1 /\ new \subseteq far(i - 1) /\ (g.ok => new = g.set), "search:expansion") : i \in 1 .. n}
       \cup If(n >= ev.steps \/ far(n) = {}, "search:stopped")
Stops(ev) == \* the search ends when asked to, and not before
    LET n == Len(ev.ops)
        best(i) == FoldLeft(LAMBDA a, j : MinI(a, AbsI(ev.norms[j])), 1073741824, [j \in 1 .. i |-> j])
        early(i) == \/ ev.tcn >= 0 /\ best(i) < ev.tcn - 1                           \* surely stopped
                    \/ ev.mrc > 0 /\ i >= 2 /\ ev.norms[i] > best(i - 1) + 1
                    \/ ev.mrc > 0 /\ i >= 2 /\ AbsI(best(i - 1) - ev.norms[i]) + 2 < ev.mrc * (best(i - 1) \div 1024)
        maybe(i) == \/ ev.tcn >= 0 /\ best(i) <= ev.tcn + 1
                    \/ ev.mrc > 0 /\ i >= 2 /\ AbsI(best(i - 1) - ev.norms[i]) - 2 <= ev.mrc * (best(i - 1) \div 1024 + 2)
                    \/ ev.mrc > 0 /\ i >= 2 /\ ev.norms[i] >= best(i - 1) - 1
    IN If(n = ev.steps \/ (n > 0 /\ maybe(n)), "search:stopped") \cup If(\A i \in 1 .. n - 1 : ~early(i), "search:late-stop")
Bases_greedy(ev, Hs) ==
    LET n == Len(ev.ops)
        best(i) == FoldLeft(LAMBDA a, j : MinI(a, AbsI(ev.norms[j])), 1073741824, [j \in 1 .. i |-> j])
        \* the threshold is halved whenever the norm gets worse
        lo(i) == FoldLeft(LAMBDA t, j : IF ev.norms[j] + 1 >= best(j - 1) THEN t \div 2 - 1 ELSE t, ev.thr - 1, [j \in 1 .. i |-> j])
        hi(i) == FoldLeft(LAMBDA t, j : IF ev.norms[j] > best(j - 1) + 1 THEN (t + 1) \div 2 ELSE t, ev.thr + 1, [j \in 1 .. i |-> j])
        \* a targeted search truncates by the best operator of the basis, not by the one it has recorded
        trunc(i) == IF ev.variant # "target" THEN LET t == TruncTo(ev, i, lo(i), hi(i)) IN [t EXCEPT !.ok = @ /\ lo(i) > 2]
                    ELSE IF ev.certs[i] = <<>> THEN [ok |-> FALSE, set |-> {}] ELSE
                    LET c == ev.certs[i][1] s == ev.ops[i].s
                        t == Trunc([x \in ToS(s) |-> <<1024 * c.U[1][IndexOf(s, x)], 0>>], lo(i) - 2048, hi(i) + 2048, ev.max[i])
                    IN [t EXCEPT !.ok = @ /\ lo(i) > 2 /\ (Len(c.lam) = 1 \/ c.lam[2] - c.lam[1] > 8)]
        step(i) == \* <<basis before, operator before, known>>
            IF i = 1 THEN <<ToS(ev.init.s), F16(ev.init), TRUE>>
            ELSE LET t == trunc(i - 1) IN <<t.set, RestrictF(F16(ev.ops[i - 1]), t.set), t.ok /\ (~ev.free \/ ev.variant = "target")>>
    IN If(n <= ev.steps, "search:steps")
       \cup UNION {LET b == TLCEval(step(i)) q == SetOf(ev.ops[i]) IN IF ~b[3] THEN {} ELSE
                   LET g == TLCEval(GreedyMany(Hs, b[1], b[2], ev.nH[i])) IN
                   If(b[1] \subseteq q, "search:basis-lost")
                   \cup If(ev.words = <<>> \/ ClosedUnder(ev.words, q), "search:transformations-closed")
                   \cup IF ~g.ok THEN {}
                        ELSE IF ev.nO = 0 /\ ev.words = <<>> THEN If(q = g.set, "search:expansion")
                        ELSE If(g.set \subseteq q, "search:expansion")
                             \cup If(ev.words # <<>> \/ AntiGrown(q, g.set, b[1], MinI(ev.nO, Cardinality(b[1]))), "search:anticommutators")
                   : i \in 1 .. n}
       \cup IF ev.variant = "target" THEN {} ELSE Stops(ev)

(* targeted searches: each step records the projection of the target (given, then the best operator so far) onto the k
   best operators of the basis, where k starts with ev.nv and grows when the fidelity would fall below ev.tfid *)
Near14(f, g) == \A s \in (DOMAIN f) \cup (DOMAIN g) : GNear(LGet(f, s), LGet(g, s), 4)
Fail_target(ev) ==
    LET n == Len(ev.ops)
        \* the best operator after i steps
        bi(i) == CHOOSE j \in 1 .. i : \A x \in 1 .. i : ev.norms[j] < ev.norms[x] \/ (ev.norms[j] = ev.norms[x] /\ j <= x)
        tgt(i) == IF i = 1 THEN [ok |-> TRUE, f |-> F14(ev.tgt)]
                  ELSE LET b == bi(i - 1) f == TLCEval(F14(ev.ops[b])) IN
                       [ok |-> \A x \in 1 .. i - 1 : ev.norms[x] - ev.norms[b] > 2 \/ Near14(f, F14(ev.ops[x])), f |-> f]
        step(z, i) ==
            IF ~z.ok \/ z.bad # {} THEN z ELSE
            IF z.done THEN [z EXCEPT !.bad = {"target:late-stop"}] ELSE
            IF ev.certs[i] = <<>> THEN [z EXCEPT !.ok = FALSE] ELSE
            LET c == ev.certs[i][1] o == ev.ops[i] m == Len(o.s) t == TLCEval(tgt(i))
                tv == TLCEval([x \in 1 .. m |-> LGet(t.f, o.s[x])[1]])
                ov == TLCEval([j \in 1 .. m |-> FoldLeft(LAMBDA a, x : a + c.U[j][x] * tv[x], 0, [x \in 1 .. m |-> x]) \div 16384])
                fid == TLCEval([k \in 0 .. m |-> FoldLeft(LAMBDA a, j : a + Sq14(ov[j]), 0, [j \in 1 .. k |-> j])])
                top == MinI(z.k, m)
                enough == {k \in top .. m : fid[k] >= ev.tfid}
                k == IF ev.tfid < 0 \/ i = 1 \/ z.k >= m THEN top ELSE IF enough = {} THEN m ELSE Min(enough)
                sure == /\ t.ok /\ \A j \in 1 .. m - 1 : c.lam[j] <= c.lam[j + 1]
                        /\ \A j \in top .. k : j = m \/ c.lam[j + 1] - c.lam[j] > 8
                        /\ ev.tfid < 0 \/ \A j \in top .. k : AbsI(fid[j] - ev.tfid) > 96
                        /\ fid[k] > 1024
                p == TLCEval([x \in 1 .. m |-> FoldLeft(LAMBDA a, j : a + ov[j] * c.U[j][x], 0, [j \in 1 .. k |-> j]) \div 16384])
                v == TLCEval([x \in 1 .. m |-> (o.c[x][1] + 512) \div 1024])
                good == /\ \A x \in 1 .. m : AbsI(o.c[x][2]) <= 1024
                        /\ \A x, y \in 1 .. m : AbsI(v[x] * p[y] - v[y] * p[x]) <= 128 * 16384
                        /\ FoldLeft(LAMBDA a, x : a + (v[x] * p[x]) \div 16384, 0, [x \in 1 .. m |-> x]) > 0
            IN IF ~sure THEN [z EXCEPT !.ok = FALSE]
               ELSE [z EXCEPT !.k = IF ev.tfid < 0 \/ i = 1 \/ enough # {} THEN MaxI(z.k, k) ELSE MaxI(z.k, m),
                              !.bad = If(good, "target:projection"), !.done = ev.tfid >= 0 /\ fid[k] < ev.tfid]
        r == FoldLeft(step, [ok |-> TRUE, bad |-> {}, k |-> ev.nv, done |-> FALSE], [i \in 1 .. n |-> i])
    IN r.bad \cup If(n <= ev.steps, "search:steps") \cup If(~r.ok \/ r.bad # {} \/ n = ev.steps \/ r.done, "search:stopped")

Fail_search(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    IF Len(ev.norms) # Len(ev.ops) THEN {"search:lengths"} ELSE
    IF ~\A i \in 1 .. Len(ev.ops) : ShapeOp(ev.ops[i]) THEN {"search:operator"} ELSE
    LET Hs == TLCEval([i \in 1 .. Len(ev.Hs) |-> HSeq(ev.Hs[i])]) IN
    UNION {Fail_rec(Hs, ev.ops[i], ev.norms[i], ev.orth, ev.words, ev.certs[i], ev.free) : i \in 1 .. Len(ev.ops)}
    \cup UNION {IF ev.wits[i] = <<>> THEN {} ELSE Fail_wit(Hs, ev.ops[i], ev.orth, ev.words, ev.wits[i][1], ev.free) : i \in 1 .. Len(ev.ops)}
    \cup Fail_best(ev)
    \cup CASE ev.variant = "simple" -> Bases_ci(ev, Hs[1], TwiceAll, FALSE)
           [] ev.variant = "ci" -> Bases_ci(ev, Hs[1], TwoAway, TRUE)
           [] ev.variant = "sweep" -> Bases_sweep(ev, Hs[1])
           [] ev.variant = "one" -> Bases_one(ev, Hs[1])
           [] ev.variant = "target" -> Fail_target(ev) \cup Bases_greedy(ev, Hs)
           [] ev.variant = "other" -> {}
           [] ev.variant = "hist" -> If(Len(ev.ops) <= ev.steps, "search:steps") \cup Stops(ev)
           [] OTHER -> Bases_greedy(ev, Hs)

(* several operators at once. ev: H, inits, ops[step][i], norms[step][i]; feas[step][i]: a unit vector (over 2^14, on the
   strings of the operator) orthogonal to the other current operators, or empty *)
InnerF(f, g) == \* over 2^14, real parts and imaginary parts
    FoldSet(LAMBDA s, a : GAdd(a, LET z == GMul(GConj(f[s]), g[s]) IN <<z[1] \div 16384, z[2] \div 16384>>), G0, (DOMAIN f) \cap (DOMAIN g))
Fail_smany(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET H == HSeq(ev.H) k == Len(ev.inits) IN
    IF ~(Len(ev.ops) = ev.steps /\ Len(ev.norms) = ev.steps /\ \A t \in 1 .. ev.steps : Len(ev.ops[t]) = k /\ Len(ev.norms[t]) = k)
    THEN {"search:lengths"} ELSE
    IF ~\A t \in 1 .. ev.steps : \A i \in 1 .. k : ShapeOp(ev.ops[t][i]) THEN {"search:operator"} ELSE
    UNION {LET t == p[1] i == p[2] f == TLCEval(F14(ev.ops[t][i]))
               cur(j) == IF j < i THEN F14(ev.ops[t][j]) ELSE IF t > 1 THEN F14(ev.ops[t - 1][j]) ELSE LScale(<<16384, 0>>, OpFn(ev.inits[j]))
               oth == TLCEval([j \in (1 .. k) \ {i} |-> cur(j)])
               v == ev.feas[t][i]
               w == IF v = <<>> THEN <<>> ELSE [s \in ToS(ev.ops[t][i].s) |-> <<v[CHOOSE x \in 1 .. Len(v) : ev.ops[t][i].s[x] = s], 0>>]
           IN Fail_rec(<<H>>, ev.ops[t][i], ev.norms[t][i], <<>>, <<>>, <<>>, TRUE)
              \cup (LET q == SetOf(ev.ops[t][i])
                        want(mx) == IF t = 1 THEN LET g == GreedyMany(<<H>>, ToS(ev.inits[i].s), F16(ev.inits[i]), ev.nHs[1])
                                              IN [ok |-> g.ok, set |-> g.set, from |-> ToS(ev.inits[i].s)]
                                    ELSE LET p0 == ev.ops[t - 1][i] tr == Trunc(OpFn(p0), ev.thr - 1, ev.thr + 1, mx)
                                             g == GreedyMany(<<H>>, tr.set, RestrictF(F16(p0), tr.set), ev.nHs[t])
                                         IN [ok |-> tr.ok /\ g.ok, set |-> g.set, from |-> tr.set]
                    IN If(\E mx \in {ev.max[t]} \cup (IF t > 1 THEN {ev.max[t - 1]} ELSE {}) :
                              LET g == want(mx) IN ~g.ok \/ (IF ev.nO = 0 THEN q = g.set ELSE AntiGrown(q, g.set, g.from, MinI(ev.nO, Cardinality(g.from)))),
                          "search:expansion"))
              \cup IF v = <<>> THEN {} ELSE
                   IF ~(Unit14(w) /\ \A j \in DOMAIN oth : GNear(InnerF(oth[j], w), G0, 64)) THEN {"bad-certificate"} ELSE
                   If(\A j \in DOMAIN oth : GNear(InnerF(oth[j], f), G0, 128), "search:orthogonal")
           : p \in (1 .. ev.steps) \X (1 .. k)}
(* ev: H, inits, ops[step][i], norms[step][i], certs[step] *)
Fail_smany2(ev) ==
    IF ev.exc # "" THEN {"exception"} ELSE
    LET H == HSeq(ev.H) k == Len(ev.inits) n == Len(ev.ops) B0 == UNION {ToS(ev.inits[i].s) : i \in 1 .. k} IN
    IF ~(n <= ev.steps /\ (ev.steps = 0 \/ n >= 1) /\ Len(ev.norms) = n /\ \A t \in 1 .. n : Len(ev.ops[t]) = k /\ Len(ev.norms[t]) = k)
    THEN {"search:lengths"} ELSE
    IF ~\A t \in 1 .. n : \A i \in 1 .. k : ShapeOp(ev.ops[t][i]) /\ ev.ops[t][i].s = ev.ops[t][1].s THEN {"search:operator"} ELSE
    UNION {LET R == TLCEval(ConRows(ev.ops[t][1].s, ev.orth, <<>>)) c == IF ev.certs[t] = <<>> THEN <<>> ELSE ev.certs[t][1]
               enough == ev.certs[t] # <<>> /\ Len(c.U) >= k IN     \* otherwise the constraints cannot all be met
           UNION {Fail_rec(<<H>>, ev.ops[t][i], ev.norms[t][i], <<>>, <<>>, <<>>, TRUE) : i \in 1 .. k}
           \cup If(\A i, j \in 1 .. k : i < j => GNear(InnerF(F14(ev.ops[t][i]), F14(ev.ops[t][j])), G0, 128), "search:orthogonal")
           \cup IF ev.certs[t] = <<>> THEN {} ELSE
                IF ~CertOK(<<H>>, ev.ops[t][1].s, R, c) THEN {"bad-certificate"} ELSE
                IF ~enough THEN {} ELSE
                LET q == SortSeq(c.lam, <) IN If(\A i \in 1 .. k : AbsI(ev.norms[t][i] - q[i]) <= 256, "search:minimal")
                   \cup If(\A i \in 1 .. k : Obeys(R, ev.ops[t][i]), "search:constraint")
           : t \in 1 .. n}
    \* with every term allowed, the bases are those of the machine; a truncation to enough strings keeps all the large ones
    \cup (IF n = 0 THEN {} ELSE LET g == GreedyJoint(H, B0, [i \in 1 .. k |-> F16(ev.inits[i])], ev.nHs[1]) IN
             If(~g.ok \/ ToS(ev.ops[1][1].s) = g.set, "search:expansion"))
    \cup IF n = 0 \/ ev.nH < 200 THEN {} ELSE
         LET big(t) == {s \in SetOf(ev.ops[t][1]) : \E i \in 1 .. k : Mag(LGet(F14(ev.ops[t][i]), s)) > 512}
             kept(t) == ev.max >= Len(ev.ops[t][1].s)
             set(t) == IF t = 0 THEN B0 ELSE SetOf(ev.ops[t][1])
         IN If(set(1) = TwoAway(H, B0), "search:expansion")
            \cup UNION {If(set(t) \subseteq TwoAway(H, set(t - 1)) /\ (kept(t - 1) => TwoAway(H, big(t - 1)) \subseteq set(t)), "search:expansion")
                        : t \in 2 .. n}
            \cup If(n < ev.steps /\ kept(n) => \E m \in {n, n - 1} : TwoAway(H, big(n)) \subseteq set(m), "search:stopped")

(* truncation of a basis: vec over 2^14, thr, max; r: strings kept *)
Fail_trunc(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET m == [s \in ToS(ev.B) |-> LET i == IndexOf(ev.B, s) IN Mag(ev.vec[i])] above == {s \in ToS(ev.B) : m[s] > ev.thr} IN
    IF ~(ToS(ev.r) \subseteq above) THEN {"trunc:threshold"} ELSE
    If(NoDup(ev.r), "trunc:duplicate")
    \cup If(Len(ev.r) = MinI(ev.max, Cardinality(above)), "trunc:number")
    \cup If(\A s \in above \ ToS(ev.r) : \A t \in ToS(ev.r) : m[t] >= m[s], "trunc:largest")
    \cup If(ev.coeffs = <<>> \/ (Len(ev.coeffs) = Len(ev.r) /\ \A i \in 1 .. Len(ev.r) : ev.coeffs[i] = ev.vec[IndexOf(ev.B, ev.r[i])]), "trunc:coefficients")
(* highest-fidelity combination of orthonormal columns E (exact, entries over 2^E.e) with values: T target over the basis, integer
   coefficients. ov: exact overlaps over 2^E.e; vec (2^14), fid, norm (2^10) *)
Fail_hifi(ev) == IF ev.exc # "" THEN {"exception"} ELSE
    LET n == Len(ev.B) f == OpFn(ev.T) t == [i \in 1 .. n |-> LGet(f, ev.B[i])]
        ov == TLCEval([k \in 1 .. ev.E.m |-> GInner(ev.E.v[k], t)])                                      \* over 2^e
        p == TLCEval([i \in 1 .. n |-> FoldLeft(LAMBDA a, k : GAdd(a, GMul(ov[k], ev.E.v[k][i])), G0, [k \in 1 .. ev.E.m |-> k])])  \* over 2^(2e)
        o2 == FoldLeft(LAMBDA a, k : a + GAbs2(ov[k]), 0, [k \in 1 .. ev.E.m |-> k])                      \* over 2^(2e)
        on == FoldLeft(LAMBDA a, k : a + GAbs2(ov[k]) * AbsI(ev.vals[k]), 0, [k \in 1 .. ev.E.m |-> k])
        big == MaxI(1, FoldLeft(LAMBDA a, x : a + AbsI(x[1]) + AbsI(x[2]), 0, p))
    IN IF ev.E.x # 1 \/ o2 = 0 THEN {"bad-input"} ELSE
       If(AbsI(ev.fid * Pow2(2 * ev.E.e) - o2 * 1024) <= 2 * Pow2(2 * ev.E.e), "hifi:fidelity")
       \cup If(AbsI(ev.norm * o2 - on * 1024) <= 2 * o2, "hifi:norm")
       \* vec is parallel to p, with a positive factor, and of unit length
       \cup If(Len(ev.vec) = n /\ AbsI(FoldLeft(LAMBDA a, c : a + Sq14(c[1]) + Sq14(c[2]), 0, ev.vec) - 16384) <= 64 + 4 * n, "hifi:unit")
       \cup If(Len(ev.vec) = n /\ \A i, j \in 1 .. n : GNear(GMul(ev.vec[i], p[j]), GMul(ev.vec[j], p[i]), 2 * big), "hifi:projection")
       \cup If(Len(ev.vec) = n /\ LET z == GInner(p, ev.vec) IN z[1] > 0 /\ AbsI(z[2]) <= 2 * big, "hifi:phase")
=============================================================================
