------------------------------ MODULE ChannelMC -----------------------------
(* The laws of the channel on all small exact scenes.                        *)
EXTENDS Channel, TLC
CONSTANTS Dirs, Vels, Ns, Sides
VARIABLE c
(* pairs (leg, hypotenuse) with the common leg 12                            *)
Tri == {<<0, 12>>, <<5, 13>>, <<9, 15>>, <<16, 20>>, <<35, 37>>}
Dir(k) == CASE k = 1 -> <<<<0, 0, 1>>, 1>> [] k = 2 -> <<<<0, 0, -1>>, 1>> [] k = 3 -> <<<<1, 0, 0>>, 1>>
            [] k = 4 -> <<<<0, 1, 0>>, 1>> [] k = 5 -> <<<<1, 2, 2>>, 3>> [] k = 6 -> <<<<2, -1, 2>>, 3>>
            [] k = 7 -> <<<<0, 3, -4>>, 5>> [] OTHER -> <<<<-3, 4, 0>>, 5>>
Vel(k) == CASE k = 0 -> <<0, 0, 0>> [] k = 1 -> <<1, 0, 0>> [] k = 2 -> <<0, 1, 0>> [] k = 3 -> <<0, 0, 1>> [] OTHER -> <<1, -1, 2>>
Side(k) == CASE k = 1 -> <<12, 0>> [] k = 2 -> <<0, 12>> [] k = 3 -> <<-12, 0>> [] OTHER -> <<0, -12>>
Coef == {<<-K, 0>>, <<0, K>>, <<6000, -8000>>}
Scene(p, s, sd, u, w, n, va, vb, r) ==
  [a |-> <<(s[1] - p[1]) \div 2, 0, 0>>, b |-> <<(s[1] + p[1]) \div 2, Side(sd)[1], Side(sd)[2]>>,
   u |-> Dir(u)[1], lu |-> Dir(u)[2], w |-> Dir(w)[1], lw |-> Dir(w)[2], n |-> n, va |-> Vel(va), vb |-> Vel(vb), r |-> r,
   d0 |-> p[2], d1 |-> s[2]]
Init == \E p, s \in Tri, sd \in Sides, u, w \in Dirs, n \in Ns, va, vb \in Vels, r \in Coef :
          /\ s[1] >= p[1] /\ (s[1] - p[1]) % 2 = 0 /\ c = Scene(p, s, sd, u, w, n, va, vb, r)
Spec == Init /\ [][FALSE]_c
Same(x, y) == Near(x[1], y[1], 4) /\ Near(x[2], y[2], 4)
Exact == Lengths(c)
Reciprocal == Same(Field(c), Field(Reverse(c)))
AnywhereAlongTheWall == Field(c) = Field(Along(c, <<7, -3>>))
EitherHand == Same(Field(c), Field(FlipY(c)))
AnyTurn == Same(Field(c), Field(TurnYZ(c)))
Passive == LET s == <<1, 1>> IN Power(Field(c)) <= 4 * K + 40
(* where both rays are of one length and seen alike, a perfect mirror        *)
(* cancels the field                                                         *)
SilentAtTheWall == (c.b[1] = 0 /\ c.w[1] = 0 /\ c.vb[1] = 0 /\ c.r = <<-K, 0>> /\ c.u[1] = 0) => Same(Field(c), <<0, 0>>)
SilentAtTheWall2 == (c.a[1] = 0 /\ c.u[1] = 0 /\ c.va[1] = 0 /\ c.r = <<-K, 0>> /\ c.w[1] = 0) => Same(Field(c), <<0, 0>>)
(* only the relative motion matters along the wall                           *)
Relative == (c.va[1] = 0 /\ c.vb[1] = 0) =>
   Same(Field(c), Field([c EXCEPT !.va = <<0, 0, 0>>, !.vb = Minus(c.vb, c.va)]))
(* absorbing wall: nothing but the direct ray                                *)
Absorbed == Power(Field([c EXCEPT !.r = <<0, 0>>])) - Power(<<Mul(Leave(c, 0), Arrive(c, 0)), 0>>) \in -4 .. 4
BerFalls == /\ \A x, y \in SnrPoints : x < y => /\ BerRayleigh(x) > BerRayleigh(y) \/ BerRayleigh(x) < 2
                                                /\ BerAwgn(x) > BerAwgn(y) \/ BerAwgn(x) = 0
            /\ \A x \in SnrPoints \ {1, 10, 100, 1000, 2000} : BerAwgn(x) <= BerRayleigh(x)
Fs == {[cos |-> k[1], sin |-> k[2], re |-> re, im |-> im, pol |-> pol] :
         k \in {<<0, 20>>, <<12, 16>>, <<16, 12>>, <<20, 0>>}, re \in {10, 20, 25, 40}, im \in {0, 3, 10}, pol \in 0 .. 4}
(* a passive wall: the reflected ray is no stronger than the incident one    *)
WallIsPassive == \A f \in Fs : Eta(f)[1] >= 400 => Power(Reflection(f)) <= K + 20
ASSUME BerFalls
ASSUME WallIsPassive
=============================================================================
