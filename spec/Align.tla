-------------------------------- MODULE Align --------------------------------
(* Rigid motions and pairings of clouds given in fixed-point coordinates      *)
(* (integers below 2^23).  delta is the accuracy of the coordinates.          *)
EXTENDS Wide

L1(u) == FoldLeft(LAMBDA s, x : s + Abs(x), 0, u)
Diff(u, v) == [i \in 1..Len(u) |-> u[i] - v[i]]
SqW(u) == FoldLeft(LAMBDA s, x : SAdd(s, Prod(Abs(x), Abs(x))), SZero, u)
InRange(u) == \A i \in 1..Len(u) : Abs(u[i]) < Limb \div 2
AllIn(ps) == \A i \in 1..Len(ps) : InRange(ps[i])

\* By how much distances must differ for a search in the given precision to be sure.
Margin(dbl, delta, apart, dist) ==
    SAdd(SMul(Min2(apart, Limb - 1), 8 * delta), SAdd(SInt(16), IF dbl THEN SZero ELSE SShr(dist, 18)))

\* The position in b of the point nearest to x, 0 if it is not beyond doubt which one that is.
NearestOf(x, b, dbl, delta) ==
    Only({ LET m == FoldLeft(LAMBDA best, j : IF SLess(ds[j], ds[best]) THEN j ELSE best, 1, [j \in 1..Len(b) |-> j]) IN
           IF \A j \in 1..Len(b) : b[j] = b[m] \/ SLess(Margin(dbl, delta, L1(Diff(b[j], b[m])), ds[j]), SSub(ds[j], ds[m]))
           THEN m ELSE 0
         : ds \in { [j \in 1..Len(b) |-> SqW(Diff(x, b[j]))] } })
\* The same where distances are computed without rounding.
ExactNearest(x, b) ==
    Only({ LET m == FoldLeft(LAMBDA best, j : IF SLess(ds[j], ds[best]) THEN j ELSE best, 1, [j \in 1..Len(b) |-> j]) IN
           IF \A j \in 1..Len(b) : b[j] = b[m] \/ SLess(ds[m], ds[j]) THEN m ELSE 0
         : ds \in { [j \in 1..Len(b) |-> SqW(Diff(x, b[j]))] } })
MatchOf(ps, b, dbl, delta) == [i \in 1..Len(ps) |-> NearestOf(ps[i], b, dbl, delta)]

-----------------------------------------------------------------------------
\* A motion: rotation matrix in units of 2^-22, translation in fixed-point units.
One == 4194304
ProperRotation(R, dbl) ==
    LET d == Len(R) tol == IF dbl THEN <<1, 0>> ELSE <<48, 0>> IN
    /\ \A i \in 1..d : \A j \in 1..d : Abs(R[i][j]) <= One + 1024
    /\ \A i, j \in 1..d : SNear(SSum([l \in 1..d |-> SMul(R[i][l], R[j][l])]), IF i = j THEN <<1048576, 0>> ELSE SZero, tol)
    /\ LET r == [i \in 1..d |-> [j \in 1..d |-> R[i][j] \div 8192]] IN
       0 < IF d = 2 THEN r[1][1] * r[2][2] - r[1][2] * r[2][1]
           ELSE r[1][1] * (r[2][2] * r[3][3] - r[2][3] * r[3][2])
              - r[1][2] * (r[2][1] * r[3][3] - r[2][3] * r[3][1])
              + r[1][3] * (r[2][1] * r[3][2] - r[2][2] * r[3][1])
MovedTo(R, t, a, x, delta) ==
    \A i \in 1..Len(a) : \A c \in 1..Len(t) :
        SNear(SAdd(SSum([l \in 1..Len(t) |-> SMul(R[c][l], a[i][l])]), SMul(t[c], One)), SMul(x[i][c], One), SMul(4 + delta, One))

-----------------------------------------------------------------------------
(* A cloud is a list of points and how often each occurs.                     *)
SumOf(ps, ws, c) == SSum([i \in 1..Len(ps) |-> STimes(SInt(ps[i][c]), ws[i])])
CentreOf(ps, ws) == Only({ [c \in 1..Len(ps[1]) |-> SDivRound(SumOf(ps, ws, c), n)] : n \in {SumSeq(ws)} })
\* m is the centroid of ps.
IsCentre(m, ps, ws, delta) == \A n \in {SumSeq(ws)} : \A c \in 1..Len(m) :
    Abs(m[c]) <= Huge /\ SNear(STimes(SInt(m[c]), n), SumOf(ps, ws, c), SMul(n, delta + 1))
SameCentre(ps, qs, ws, delta) == \A n \in {SumSeq(ws)} : \A c \in 1..Len(ps[1]) :
    SNear(SumOf(ps, ws, c), SumOf(qs, ws, c), SMul(n, delta + 1))

Devs(ps, ws) == Only({ [i \in 1..Len(ps) |-> Diff(ps[i], m)] : m \in {CentreOf(ps, ws)} })
CrossW(us, vs, ws) == LET d == Len(us[1]) IN
    [i \in 1..d |-> [j \in 1..d |-> SSum([l \in 1..Len(us) |-> STimes(SMul(us[l][i], vs[l][j]), ws[l])])]]
\* Sizes: of the deviations (about a sixteenth, an integer) and of the cross-covariance.
SizeOf(us, ws) == SumSeq([i \in 1..Len(us) |-> ws[i] * (L1(us[i]) \div 16 + 1)])
Strength(us, vs, ws) == SSum([l \in 1..Len(us) |-> STimes(SMul(Min2(L1(us[l]), Limb - 1), Min2(L1(vs[l]), Limb - 1)), ws[l])])
SMulBig(q, m) == IF q < Limb THEN SMul(q, m) ELSE SMul(q \div 256 + 1, 256 * m)
Noise(us, vs, ws, delta) == SMulBig(SizeOf(us, ws) + SizeOf(vs, ws), 32 * (delta + 1))

\* H must be symmetric, to what the singular value decomposition achieves.
SvdBits(dbl, d) == IF dbl THEN 24 ELSE IF d = 2 THEN 13 ELSE 8
Symmetric(H, us, vs, ws, dbl, delta) ==
    \A tol \in { SAdd(SShr(Strength(us, vs, ws), SvdBits(dbl, Len(H))), Noise(us, vs, ws, delta)) } :
       \A i, j \in 1..Len(H) : i < j => SNear(H[i][j], H[j][i], tol)

(* The largest turn: tr(H) I - H has no negative eigenvalue, decided by its   *)
(* principal minors on a scale of about a thousand.                           *)
TurnGap(H, k) == LET d == Len(H)
                     s == [i \in 1..d |-> [j \in 1..d |-> SDown(SAdd(H[i][j], H[j][i]), k)]]   \* twice the symmetric part
                     tr == SumSeq([i \in 1..d |-> s[i][i]])
                 IN [i \in 1..d |-> [j \in 1..d |-> (IF i = j THEN tr ELSE 0) - s[i][j]]]
Minor(K, i, j) == K[i][i] * K[j][j] - K[i][j] * K[j][i]
DetW(K) == SAdd(SMul(K[1][1], Minor(K, 2, 3)),
           SAdd(SMul(K[1][2], K[2][3] * K[3][1] - K[2][1] * K[3][3]),
                SMul(K[1][3], K[2][1] * K[3][2] - K[2][2] * K[3][1])))
NoNegative(K, err) ==
    IF Len(K) = 2 THEN K[1][1] + K[2][2] >= -2 * err
    ELSE /\ \A i \in 1..3 : K[i][i] >= -err
         /\ \A i, j \in 1..3 : i < j => Minor(K, i, j) >= -err * (Abs(K[i][i]) + Abs(K[j][j]) + 2 * Abs(K[i][j]) + err)
         /\ err > 40 \/ SLess(SNeg(SInt((err * 9 * 2100 * 2100) \div 4)), DetW(K))
Largest(H, us, vs, ws, delta) ==
    LET d == Len(H)
        k == Max2(0, FoldLeft(LAMBDA m, x : Max2(m, x), 0,
                 [x \in 1..(d * d) |-> SBits(SAbs(H[((x - 1) \div d) + 1][((x - 1) % d) + 1]))]) - 9)
    IN \A kk \in {k} : \A noise \in { SBits(Noise(us, vs, ws, delta)) - kk } :
         noise >= 6 \/ NoNegative(TurnGap(H, kk), 6 + 4 * Pow2(Max2(0, noise)))

Residual(x, cs, ws) == SSum([i \in 1..Len(x) |-> STimes(SqW(Diff(x[i], cs[i])), ws[i])])
ResidualNoise(x, cs, ws, delta) ==
    SAdd(SMulBig(SumSeq([i \in 1..Len(x) |-> ws[i] * ((L1(Diff(x[i], cs[i])) \div 16) + 1)]), 32 * (delta + 1)),
         SMul(SumSeq(ws) * Len(x[1]), 4 * (delta + 1) * (delta + 1)))
=============================================================================
