------------------------------ MODULE Channel ------------------------------
(* The radio channel of the RFID model where it is exact: a wall (the plane  *)
(* x = 0), two antennas at integer points whose direct and reflected         *)
(* distances are integers, a wavelength of 4/n, so that every phase is a     *)
(* multiple of a quarter turn.  Numbers with a fraction are fixed-point, in  *)
(* units of 1/K.                                                             *)
EXTENDS Integers, Sequences
K == 10000
Dot(x, y) == x[1] * y[1] + x[2] * y[2] + x[3] * y[3]
Minus(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
Mirror(x) == <<-x[1], x[2], x[3]>>
Near(x, y, tol) == x - y \in -tol .. tol
(* rounded quotient, for any signs (den > 0)                                 *)
Quo(num, den) == (2 * num + den) \div (2 * den)
Mul(x, y) == Quo(x * y, K)
CMul(x, y) == <<Mul(x[1], y[1]) - Mul(x[2], y[2]), Mul(x[1], y[2]) + Mul(x[2], y[1])>>
(* exp(-i pi/2 q)                                                            *)
Turn(q) == CASE q % 4 = 0 -> <<K, 0>> [] q % 4 = 1 -> <<0, -K>> [] q % 4 = 2 -> <<-K, 0>> [] OTHER -> <<0, K>>
Scale(z, num, den) == <<Quo(z[1] * num, den), Quo(z[2] * num, den)>>
(* A scene: antennas at a (sending) and b, directions u and w (integer       *)
(* vectors of lengths lu and lw), n quarter waves per unit of length,        *)
(* velocities times time va and vb in units of d0 d1, reflection coefficient *)
(* r, lengths d0 and d1 of the rays.                                         *)
Image(c) == Mirror(c.b)
Ray0(c) == Minus(c.b, c.a)
Ray1(c) == Minus(Image(c), c.a)
Lengths(c) == Dot(Ray0(c), Ray0(c)) = c.d0 * c.d0 /\ Dot(Ray1(c), Ray1(c)) = c.d1 * c.d1
              /\ Dot(c.u, c.u) = c.lu * c.lu /\ Dot(c.w, c.w) = c.lw * c.lw
Cos(ray, d, dir, l) == Quo(Quo(Dot(ray, dir) * 1000, l) * (K \div 1000), d)
(* cosines between the rays and the antennas: leaving a, and seen from b     *)
Leave(c, k) == IF k = 0 THEN Cos(Ray0(c), c.d0, c.u, c.lu) ELSE Cos(Ray1(c), c.d1, c.u, c.lu)
Arrive(c, k) == IF k = 0 THEN -Cos(Ray0(c), c.d0, c.w, c.lw)
                ELSE -Cos(Mirror(Ray1(c)), c.d1, c.w, c.lw)
(* growth of the rays' lengths since the field was switched on               *)
Growth0(c) == c.d1 * Dot(Ray0(c), Minus(c.vb, c.va))
Growth1(c) == c.d0 * Dot(Ray1(c), Minus(Mirror(c.vb), c.va))
(* the field, relative to that of the direct ray in free space               *)
Field(c) == LET f0 == Scale(Turn(c.n * (c.d0 - Growth0(c))), Mul(Leave(c, 0), Arrive(c, 0)), K)
                f1 == Scale(CMul(c.r, Turn(c.n * (c.d1 - Growth1(c)))), Mul(Leave(c, 1), Arrive(c, 1)), K)
                f2 == Scale(f1, c.d0, c.d1)
            IN <<f0[1] + f2[1], f0[2] + f2[2]>>
Power(z) == Mul(z[1], z[1]) + Mul(z[2], z[2])
Reverse(c) == [c EXCEPT !.a = c.b, !.b = c.a, !.u = c.w, !.w = c.u, !.lu = c.lw, !.lw = c.lu, !.va = c.vb, !.vb = c.va]
Along(c, k) == LET s(x) == <<x[1], x[2] + k[1], x[3] + k[2]>> IN [c EXCEPT !.a = s(c.a), !.b = s(c.b)]
FlipY(c) == LET s(x) == <<x[1], -x[2], x[3]>> IN
            [c EXCEPT !.a = s(c.a), !.b = s(c.b), !.u = s(c.u), !.w = s(c.w), !.va = s(c.va), !.vb = s(c.vb)]
TurnYZ(c) == LET s(x) == <<x[1], -x[3], x[2]>> IN
             [c EXCEPT !.a = s(c.a), !.b = s(c.b), !.u = s(c.u), !.w = s(c.w), !.va = s(c.va), !.vb = s(c.vb)]
(* Tables, in millionths.  Dipole: pattern by 1000 * cosine; behind the       *)
(* antenna, and across it, there is nothing.  BER by 1000 * SNR.             *)
Dipole(x) == CASE x = 1000 -> 1000000 [] x = 866 -> 816497 [] x = 800 -> 734732 [] x = 707 -> 627933 [] x = 600 -> 515028
   [] x = 500 -> 417794 [] x = 259 -> 206701 [] x = 174 -> 137414 [] OTHER -> 0
BerRayleigh(x) == CASE x = 1 -> 499682 [] x = 10 -> 496838 [] x = 100 -> 470153 [] x = 1000 -> 307550 [] x = 2000 -> 222937 [] x
   = 4000 -> 144084 [] x = 9000 -> 76573 [] x = 10000 -> 70017 [] x = 16000 -> 46259 [] x = 100000 -> 8047 [] x =
   1000000 -> 817 [] x = 10000000 -> 82 [] OTHER -> 500000
BerAwgn(x) == CASE x = 1 -> 499682 [] x = 10 -> 496827 [] x = 100 -> 469206 [] x = 1000 -> 266968 [] x = 2000 -> 144928 [] x
   = 4000 -> 44465 [] x = 9000 -> 2696 [] x = 10000 -> 1564 [] x = 16000 -> 63 [] x = 100000 -> 0 [] x = 1000000
   -> 0 [] x = 10000000 -> 0 [] OTHER -> 500000
SnrPoints == {0, 1, 10, 100, 1000, 2000, 4000, 9000, 10000, 16000, 100000, 1000000, 10000000}
DipolePoints == {-1000, -600, 0, 1000, 866, 800, 707, 600, 500, 259, 174}
(* Fresnel: cosine and sine in 1/20, the root c = (f - i g)/20 of            *)
(* eta - cosine^2; eta in 1/400.                                             *)
Eta(f) == <<f.re * f.re - f.im * f.im + f.cos * f.cos, -2 * f.re * f.im>>
Abs(x) == IF x < 0 THEN -x ELSE x
Frac(num, den) == LET a == Abs(num)
                      q == a \div den
                      r1 == (a % den) * 10
                      r2 == (r1 % den) * 10
                      r3 == (r2 % den) * 10
                      r4 == (r3 % den) * 10
                      v == q * K + (r1 \div den) * 1000 + (r2 \div den) * 100 + (r3 \div den) * 10 + (r4 \div den)
                  IN IF num < 0 THEN -v ELSE v
CDiv(z, w) == LET m == w[1] * w[1] + w[2] * w[2] IN
              <<Frac(z[1] * w[1] + z[2] * w[2], m), Frac(z[2] * w[1] - z[1] * w[2], m)>>
Parallel(f) == CDiv(<<f.sin - f.re, f.im>>, <<f.sin + f.re, -f.im>>)
Perpendicular(f) == LET e == <<Quo(f.sin * Eta(f)[1], 4), Quo(f.sin * Eta(f)[2], 4)>>
                    IN CDiv(<<e[1] - 100 * f.re, e[2] + 100 * f.im>>, <<e[1] + 100 * f.re, e[2] - 100 * f.im>>)
(* polarisation in quarters                                                  *)
Reflection(f) == LET a == Parallel(f) b == Perpendicular(f)
                 IN <<Quo(f.pol * a[1] + (4 - f.pol) * b[1], 4), Quo(f.pol * a[2] + (4 - f.pol) * b[2], 4)>>
(* Link budget: sums of decibels, in millionths                              *)
Sum(q) == IF q = <<>> THEN 0 ELSE LET RECURSIVE S(_) S(k) == IF k = 0 THEN 0 ELSE q[k] + S(k - 1) IN S(Len(q))
=============================================================================
