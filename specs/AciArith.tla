------------------------------ MODULE AciArith ------------------------------
(* C11: aci_simp over arithmetic and bit-vector operators: flattening and units for all, commutation
   for all but concat, idempotence only where the operator is idempotent; eq_simplify on numbers. *)
EXTENDS SemA
CONSTANTS MaxEdits, Part, Parts
VARIABLE st
i == L("i") j == L("j") k == L("k") u == L("u") v == L("v")
A == BVx("A", 2) B == BVx("B", 2) C == BVx("C", 2) D == BVx("D", 1)
DeclA == Decl \o "(declare-fun A () (_ BitVec 2))(declare-fun B () (_ BitVec 2))(declare-fun C () (_ BitVec 2))(declare-fun D () (_ BitVec 1))"

Ops == [add |-> [o |-> "+", x |-> i, y |-> j, z |-> k, id |-> N(0), idem |-> FALSE, comm |-> TRUE],
        mul |-> [o |-> "*", x |-> i, y |-> j, z |-> k, id |-> N(1), idem |-> FALSE, comm |-> TRUE],
        radd |-> [o |-> "+", x |-> u, y |-> v, z |-> u, id |-> R(0, 1), idem |-> FALSE, comm |-> TRUE],
        rmul |-> [o |-> "*", x |-> u, y |-> v, z |-> v, id |-> R(1, 1), idem |-> FALSE, comm |-> TRUE],
        bvadd |-> [o |-> "bvadd", x |-> A, y |-> B, z |-> C, id |-> BVc(0, 2), idem |-> FALSE, comm |-> TRUE],
        bvmul |-> [o |-> "bvmul", x |-> A, y |-> B, z |-> C, id |-> BVc(1, 2), idem |-> FALSE, comm |-> TRUE],
        bvxor |-> [o |-> "bvxor", x |-> A, y |-> B, z |-> C, id |-> BVc(0, 2), idem |-> FALSE, comm |-> TRUE],
        bvand |-> [o |-> "bvand", x |-> A, y |-> B, z |-> C, id |-> BVc(3, 2), idem |-> TRUE, comm |-> TRUE],
        bvor |-> [o |-> "bvor", x |-> A, y |-> B, z |-> C, id |-> BVc(0, 2), idem |-> TRUE, comm |-> TRUE],
        concat |-> [o |-> "concat", x |-> A, y |-> B, z |-> D, id |-> A, idem |-> FALSE, comm |-> FALSE]]
RECURSIVE Dedup(_)
Dedup(z) == IF z = <<>> THEN <<>> ELSE LET h1 == SubSeq(z, 1, Len(z) - 1) l == z[Len(z)] IN
            IF \E m \in 1..Len(h1) : h1[m] = l THEN Dedup(h1) ELSE Append(Dedup(h1), l)
RECURSIVE Flat(_, _)
Flat(t, o) == IF t.o # o THEN <<t>> ELSE FlattenSeq([m \in 1..Len(t.a) |-> Flat(t.a[m], o)])
Terms1(p) == LET o == p.o x == p.x y == p.y z == p.z IN
  {T(o, <<x, y>>), T(o, <<T(o, <<x, y>>), z>>), T(o, <<x, T(o, <<y, z>>)>>), T(o, <<T(o, <<x, y>>), T(o, <<z, y>>)>>), T(o, <<x, y, z, x>>), T(o, <<x, x>>), T(o, <<T(o, <<x, x>>), y, x>>)}
  \cup (IF p.o = "concat" THEN {} ELSE {T(o, <<x, p.id>>), T(o, <<p.id, T(o, <<y, p.id, x>>)>>), T(o, <<T(o, <<x, p.id>>), x>>)})
Norm(p, t) == LET z == Flat(t, p.o) z2 == IF p.o = "concat" THEN z ELSE SelectSeq(z, LAMBDA w : w # p.id) IN IF p.idem THEN Dedup(z2) ELSE z2
One(op, z) == IF Len(z) = 1 THEN z[1] ELSE T(op, z)
E1(rule, l, r) == [r |-> rule, prem |-> <<>>, cl |-> <<Eq(l, r)>>, args |-> <<>>]
AciSeeds == UNION {UNION {LET z == Norm(Ops[n], t) IN
     {E1("aci_simp", t, One(Ops[n].o, z)), E1("aci_simp", One(Ops[n].o, z), t)} \cup
     (IF Ops[n].comm THEN {E1("aci_simp", t, One(Ops[n].o, Reverse(z)))} ELSE {}) : t \in Terms1(Ops[n])} : n \in DOMAIN Ops}
EqS == {E1("eq_simplify", Eq(N(1), N(1)), TT), E1("eq_simplify", Eq(N(1), N(2)), FF), E1("eq_simplify", Eq(N(-1), N(1)), FF), E1("eq_simplify", Eq(N(-3), N(-3)), TT),
        E1("eq_simplify", Eq(R(1, 2), R(1, 4)), FF), E1("eq_simplify", Not(Eq(N(2), N(2))), FF), E1("eq_simplify", Not(Eq(R(-1, 1), R(-1, 1))), FF), E1("eq_simplify", Eq(i, i), TT),
        E1("eq_simplify", Eq(T("+", <<i, j>>), T("+", <<i, j>>)), TT), E1("eq_simplify", Eq(A, A), TT)}
Seeds == AciSeeds \cup EqS
Pool == [Bool |-> {TT, FF}, Int |-> {i, j, N(0), N(1), N(2)}, Real |-> {u, v, R(0, 1), R(1, 1)}, BV2 |-> {A, B, BVc(0, 2), BVc(3, 2)}, BV1 |-> {D}]
Doms == [Int |-> {I2R(-1), I2R(0), I2R(2), I2R(3)}, Real |-> {I2R(-1), I2R(0), <<3, 2>>, I2R(2)}]
RefutedC(prem, cl) == RefutedA(prem, cl, Doms)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclA
Init == At!AInit
Next == At!ANext
Emit == At!AEmit

\* exhaustive: two applications of one operator to small argument lists
Lists(p) == LET S == {p.x, p.y, p.id} IN {T(p.o, <<z1, z2>>) : z1 \in S, z2 \in S} \cup {T(p.o, <<z1, z2, z3>>) : z1 \in S, z2 \in S, z3 \in S}
            \cup {T(p.o, <<T(p.o, <<z1, z2>>), z3>>) : z1 \in S, z2 \in S, z3 \in S}
Names == SetToSeq(DOMAIN Ops)
XInit == st = 0
XNext == st < Len(Names) /\ st' = st + 1
XEmit == IF st = 0 THEN PrintT("CASE\tdecl\t" \o DeclA) ELSE
  LET p == Ops[Names[st]] LL == Lists(p) IN
  \A l \in LL : \A z \in LL \cup {p.x, p.y, p.id} : WidthOf(l) # WidthOf(z) \/ (LET cl == <<Eq(l, z)>> IN
     RefutedC(<<>>, cl) => PrintT("CASE\tbad\taci_simp\t\t" \o Cl(cl) \o "\t\t0"))
=============================================================================
