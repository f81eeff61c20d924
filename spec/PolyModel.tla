----------------------------- MODULE PolyModel ------------------------------
(* Internal consistency of the exact calculus: a simplex is chosen, then   *)
(* refined by bisection; integrals are additive, exact on monomials, and    *)
(* obey the product rule and the divergence theorem.                        *)
EXTENDS Poly
CONSTANTS N, Corners, Monos
VARIABLES cells, root

Simplices == {q \in [1..(N + 1) -> Corners] : Weight(q) # 0 /\ Rational(q)}
Init == root \in Simplices /\ cells = {[j \in 1..(N + 1) |-> [i \in 1..3 |-> 2 * root[j][i]]]}
Mid(a, b) == [i \in 1..3 |-> (a[i] + b[i]) \div 2]
Bisect(q) == /\ cells = {[j \in 1..(N + 1) |-> [i \in 1..3 |-> 2 * root[j][i]]]}
             /\ \E a, b \in 1..(N + 1) : a < b /\
                  cells' = {[q EXCEPT ![a] = Mid(q[a], q[b])], [q EXCEPT ![b] = Mid(q[a], q[b])]}
             /\ UNCHANGED root
Next == \E q \in cells : Bisect(q)
Spec == Init /\ [][Next]_<<cells, root>>

RECURSIVE Total(_, _)
Total(S, p) == IF S = {} THEN 0 ELSE LET q == CHOOSE x \in S : TRUE IN Md(Integral(q, 2, p) + Total(S \ {q}, p))
Big == [j \in 1..(N + 1) |-> [i \in 1..3 |-> 2 * root[j][i]]]
Additive == \A m \in Monos : Total(cells, <<m>>) = Integral(Big, 2, <<m>>)
\* higher rules agree with lower ones
RuleFree == \A m \in Monos : Integral(root, 2, <<m>>) = Integral(root, 3, <<m>>)
\* a! b! d! / (a+b+d+n)! on the reference simplex
Ref == [j \in 1..(N + 1) |-> [i \in 1..3 |-> IF j = i + 1 THEN 1 ELSE 0]]
Monomials == \A m \in Monos : (\A i \in 1..3 : i > N => m[i + 1] = 0) =>
               Integral(Ref, 2, <<m>>) = Md(Md(m[1] * Fact(m[2])) * Md(Md(Fact(m[3]) * Fact(m[4])) * Inv(Fact(m[2] + m[3] + m[4] + N))))
ProductRule == \A m, k \in Monos, i \in 1..3 :
    EqualPoly(Diff(Times(<<m>>, <<k>>), i), Plus(Times(Diff(<<m>>, i), <<k>>), Times(<<m>>, Diff(<<k>>, i))))
\* sum over the facets of (integer outward normal component) * mean value = integral of the derivative
Facet(q, j) == [k \in 1..N |-> q[IF k < j THEN k ELSE k + 1]]
Normal(q, j) ==    \* (n-1)! * area * unit outward normal
    LET f == Facet(q, j)
        raw == CASE N = 3 -> Cross3(Minus3(f[2], f[1]), Minus3(f[3], f[1]))
                 [] N = 2 -> <<f[2][2] - f[1][2], f[1][1] - f[2][1], 0>>
    IN IF Dot3(raw, Minus3(f[1], q[j])) > 0 THEN raw ELSE <<-raw[1], -raw[2], -raw[3]>>
Flux(q, p, i) ==
    LET R == Rules[N - 1][2]
        side(j) == LET g(k) == Md(R[k][1] * Eval(p, At(Facet(q, j), R[k][2], R[k][3])))
                   IN Md(Md(Normal(q, j)[i]) * SumTo(g, Len(R)))
    IN SumTo(side, N + 1)
Divergence == N > 1 => \A m \in Monos, i \in 1..N : Integral(root, 2, Diff(<<m>>, i)) = Flux(root, <<m>>, i)
=============================================================================
