---------------------------- MODULE DecoderMCdefs ----------------------------
EXTENDS DecoderMC
M1 == [lm |-> [o |-> 3, m |-> 7, c |-> <<3, 2, 5>>], j |-> 1, sl |-> <<1, 2, 1>>, tl |-> <<1, 2>>, wp |-> <<1, 2, 1>>,
       pt |-> << <<1>>, <<3>> >> :> <<-2, -1>> @@ << <<1>>, <<4, 6>> >> :> <<-1, -3>> @@ << <<2>>, <<5>> >> :> <<-1, 0>>
             @@ << <<1, 2>>, <<3, 5>> >> :> <<-2, -4>> @@ << <<2, 3>>, <<6, 3>> >> :> <<-3, -1>> @@ << <<3>>, <<4>> >> :> <<0, -2>>,
       dict |-> << <<4>>, <<9>> >> :> -1 @@ << <<2>>, <<4>> >> :> -2]
Par(W, A, E, U) == [W |-> W, A |-> A, E |-> E, U |-> U]
With(R) == IF R.mode = "plain" THEN R @@ [opt |-> TLCEval([p \in {x \in (1..J(R)) \X (1..J(R)) : x[1] <= x[2]} |-> PlainOpt(R, p[1], p[2])])] ELSE R
W1 == <<4, 4, 2, 4, 2, 4, 8, 4>>
W2 == <<-2, 4, 1, 2, 4, 2, 4, 1>>
Srcs == {<<1, 2>>, <<2, 3, 1>>, <<1, 5, 2>>, <<4, 1, 2>>, <<1, 2, 3>>}
NoCons == <<>>
ConsOf(s) == {NoCons, <<1, 1>> :> <<8, 9>>} \cup (IF Len(s) > 2 THEN {<<2, 3>> :> <<7>>, (<<1, 1>> :> <<9>>) @@ (<<3, 3>> :> <<3, 3>>)} ELSE {})
Refs == {<<3, 5>>, <<4, 6, 5>>, <<3, 4, 9>>, <<4>>, <<6, 3, 3>>, <<10, 5, 4, 3>>}
Pars == {Par(1000, 10, 10, 10), Par(1000, 1, 10, 10), Par(100, 2, 1, 1), Par(50, 3, 0, 0), Par(200, 2, 2, 2)}
Plain == {With([m |-> M1, w |-> w, par |-> p, src |-> s, cons |-> k, mode |-> "plain", ref |-> <<>>, blank |-> FALSE]) :
            w \in {W1, W2}, p \in Pars, s \in Srcs, k \in {NoCons}} \cup
         UNION {{With([m |-> M1, w |-> W1, par |-> p, src |-> s, cons |-> k, mode |-> "plain", ref |-> <<>>, blank |-> FALSE]) : p \in Pars, k \in ConsOf(s)} : s \in Srcs}
Guided == {[m |-> M1, w |-> W1, par |-> p, src |-> s, cons |-> NoCons, mode |-> md, ref |-> r, blank |-> FALSE] :
            p \in Pars, s \in Srcs, md \in {"ref", "ver", "prefix"}, r \in Refs}
          \cup {[m |-> M1, w |-> W2, par |-> p, src |-> s, cons |-> NoCons, mode |-> "prefix", ref |-> r, blank |-> TRUE] : p \in Pars, s \in Srcs, r \in Refs}
==============================================================================
