------------------------------- MODULE EqCongA ------------------------------
(* C12: congruence over interpreted and indexed operators. *)
EXTENDS SemA
CONSTANTS MaxEdits, Part, Parts
VARIABLE st
i == L("i") j == L("j") k == L("k") l == L("l") u == L("u") v == L("v")
A == BVx("A", 2) B == BVx("B", 2) C == BVx("C", 2) D == BVx("D", 2)
DeclA == Decl \o "(declare-fun A () (_ BitVec 2))(declare-fun B () (_ BitVec 2))(declare-fun C () (_ BitVec 2))(declare-fun D () (_ BitVec 2))"
U1(es) == [m \in 1..Len(es) |-> <<es[m]>>]
NegC(es) == [m \in 1..Len(es) |-> Not(es[m])]
Tpl == {T("+", <<i, j>>), T("-", <<i, j>>), T("-", <<i>>), T("*", <<i, j>>), T("<", <<i, j>>), T(">=", <<i, j>>), T("div", <<i, j>>), T("abs", <<i>>), T("to_real", <<i>>),
        T("bvadd", <<A, B>>), T("bvnot", <<A>>), T("bvult", <<A, B>>), T("concat", <<A, B>>), Ix("extract", 1, 1, <<A>>), Ix("extract", 0, 0, <<A>>), Ix("sign_extend", 1, 0, <<A>>),
        Ix("zero_extend", 1, 0, <<A>>), Ix("rotate_left", 1, 0, <<A>>), Ix("@bit_of", 1, 0, <<A>>), Ix("repeat", 2, 0, <<A>>)}
Sub(t) == [t EXCEPT !.a = [m \in 1..Len(t.a) |-> CASE t.a[m] = i -> k [] t.a[m] = j -> l [] t.a[m] = A -> C [] t.a[m] = B -> D]]
Es(t) == [m \in 1..Len(t.a) |-> Eq(t.a[m], Sub(t).a[m])]
Seeds == {[r |-> "cong", prem |-> U1(Es(t)), cl |-> <<Eq(t, Sub(t))>>, args |-> <<>>] : t \in Tpl}
    \cup {[r |-> "eq_congruent", prem |-> <<>>, cl |-> NegC(Es(t)) \o <<Eq(t, Sub(t))>>, args |-> <<>>] : t \in {z \in Tpl : z.n = 0 /\ z.o \notin {"extract", "<", ">=", "bvult", "@bit_of"}}}
    \cup {[r |-> "eq_congruent_pred", prem |-> <<>>, cl |-> NegC(Es(t)) \o <<Not(t), Sub(t)>>, args |-> <<>>] : t \in {z \in Tpl : z.o \in {"<", ">=", "bvult"}}}
    \cup {[r |-> "cong", prem |-> <<<<Eq(j, l)>>>>, cl |-> <<Eq(T("+", <<i, j>>), T("+", <<i, l>>))>>, args |-> <<>>]}
Pool == [Bool |-> {TT}, Int |-> {i, k, N(0)}, BV2 |-> {A, C}]
Doms == [Int |-> {I2R(-1), I2R(0), I2R(2)}, Real |-> {I2R(0), <<3, 2>>}]
RefutedC(prem, cl) == RefutedA(prem, cl, Doms)
At == INSTANCE Attempt WITH Refuted <- RefutedC, DeclText <- DeclA
Init == At!AInit
Next == At!ANext
Emit == At!AEmit
=============================================================================
