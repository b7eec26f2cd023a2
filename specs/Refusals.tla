------------------------------ MODULE Refusals ------------------------------
(* Which arguments fit together.  A call is a function with the lengths of    *)
(* its per-event arrays, its numbers, its names, its sample and its matrix;   *)
(* the rules of a function say what has to hold.                              *)
EXTENDS Common
Value(q, n) == {q[i][2] : i \in {j \in 1..Len(q) : q[j][1] = n}}
Per(e, n) == Value(e.lens, n)
Num(e, n) == Value(e.num, n)
Txt(e, n) == Value(e.txt, n)
OnGrid(s, w) == \A i, j \in 1..Len(s) : (s[i] - s[j]) % w = 0
(* neighbour matrices: square of the number of values, entries 0 or 1 off the *)
(* diagonal, all on one side of it or mirrored                                *)
Square(m) == \A i \in 1..Len(m) : Len(m[i]) = Len(m)
Entries(m) == {m[i][j] : <<i, j>> \in {p \in (1..Len(m)) \X (1..Len(m)) : p[1] # p[2]}}
OneSided(m) == (\A i, j \in 1..Len(m) : i > j => m[i][j] = 0) \/ (\A i, j \in 1..Len(m) : i < j => m[i][j] = 0)
Mirrored(m) == \A i, j \in 1..Len(m) : i # j => m[i][j] = m[j][i]
Neighbours(m, n) == Square(m) /\ Len(m) = n /\ (OneSided(m) \/ Mirrored(m)) /\ Entries(m) \subseteq {0, 1}
Holds(e, r) ==
  CASE r[1] = "same" -> \A x \in Per(e, r[2]) : \A n \in Per(e, "m") : x = n
    [] r[1] = "some" -> \A x \in Per(e, r[2]) : x >= r[3]
    [] r[1] = "least" -> \A x \in Num(e, r[2]) : x >= r[3]
    [] r[1] = "order" -> \A x \in Num(e, r[2]) : \A y \in Num(e, r[3]) : x <= y
    [] r[1] = "strict" -> \A x \in Num(e, r[2]) : \A y \in Num(e, r[3]) : x < y
    [] r[1] = "not" -> \A x \in Num(e, r[2]) : x # r[3]
    [] r[1] = "needs" -> Num(e, r[2]) # {} => Num(e, r[3]) # {}
    [] r[1] = "given" -> Num(e, r[2]) # {}
    [] r[1] = "name" -> Txt(e, r[2]) \subseteq r[3]
    [] r[1] = "binned" -> OnGrid(e.smp, e.w)
    [] r[1] = "columns" -> \A i \in 1..Len(e.mat) : Len(e.mat[i]) = 2
    [] r[1] = "ascending" -> \A i \in 2..Len(e.mat) : e.mat[i][1] >= e.mat[i - 1][1]
    [] r[1] = "neighbours" -> e.mat = <<>> \/ \A n \in Per(e, "m") : Neighbours(e.mat, n)
    [] r[1] = "enough" -> \A lo \in Num(e, "lo") : \A hi \in Num(e, "hi") : \A x \in Num(e, "range") : hi - lo >= x
Binned == <<"binned">>
Weights == {<<"same", "weights">>, <<"least", "weight", 0>>}
Dmc == <<"least", "dmc", 0>>
Times == <<"same", "times">>
BParameter == <<"name", "b_parameter", {"b_value", "beta"}>>
Position == <<"name", "bin_position", {"left", "center"}>>
Width == <<"least", "width", 1>>
Rules(f) ==
  CASE f \in {"ClassicBValueEstimator", "UtsuBValueEstimator"} -> Weights \cup {Binned}
    [] f \in {"BPositiveBValueEstimator", "BMorePositiveBValueEstimator"} -> Weights \cup {Binned, Dmc, Times}
    [] f = "ClassicAValueEstimator" -> {Binned, <<"needs", "m_ref", "b_value">>}
    [] f = "APositiveAValueEstimator" -> {Binned, Dmc, Times, <<"needs", "m_ref", "b_value">>}
    [] f = "AMorePositiveAValueEstimator" -> {Binned, Dmc, Times, <<"given", "b_value">>}
    [] f = "estimate_b" -> Weights \cup {Binned, BParameter}
    [] f = "estimate_b positive" -> Weights \cup {Binned, BParameter, Times, Dmc}
    [] f = "get_fmd" -> {<<"same", "weights">>, Width, Position}
    [] f = "get_cum_fmd" -> {<<"same", "weights">>, <<"least", "width", 0>>, Position}
    [] f \in {"plot_fmd", "plot_cum_fmd"} -> {<<"same", "weights">>, Position}
    [] f = "ks_test_gr" -> {<<"same", "weights">>}
    [] f = "estimate_mc_ks" -> Weights \cup {Binned}
    [] f = "estimate_mc_b_stability" -> Weights \cup {Binned, <<"enough">>}
    [] f = "bin_to_precision" -> {Width}
    [] f = "binning_test" -> {<<"some", "m", 1>>}
    [] f = "b_significant_1D" -> {Times, <<"same", "mc">>, <<"same", "x">>, <<"order", "min_num", "n_m">>}
    [] f = "plot_b_series_constant_nm" -> {Times, <<"same", "mc">>, <<"same", "x">>, <<"order", "min_num", "n_m">>, <<"name", "technique", {"left", "midpoint", "right"}>>}
    [] f = "plot_b_significant_1D" -> {Times, <<"same", "mc">>, <<"same", "x">>}
    [] f = "plot_mc_vs_b positive" -> {Times}
    [] f = "values_from_partitioning" -> {Times, <<"same", "mc">>, <<"same", "scaling">>}
    [] f = "transform_n" -> {<<"order", "n1", "n2">>}
    [] f = "cut_constant_idx" -> {<<"strict", "offset", "n">>}
    [] f = "est_morans_i" -> {<<"some", "m", 2>>, <<"neighbours">>}
    [] f = "plot_cum_count" -> {Times, <<"same", "weights">>, <<"order", "colors", "mcs">>, <<"order", "mcs", "colors">>}
    [] f = "plot_mags_in_time" -> {Times}
    [] f = "reverse_dot_size" -> {<<"not", "power", 0>>}
    [] f \in {"simulate_magnitudes_binned", "shi_bolt_confidence"} -> {BParameter}
    [] f = "dither_magnitudes" -> {Binned}
    [] f \in {"estimate_b_weichert", "estimate_b_kijko_smit"} -> {Times, <<"columns">>, <<"ascending">>, Width, BParameter}
    [] f = "empirical_lilliefors" -> {<<"order", "mc", "lowest">>}
    [] f = "make_more_incomplete" -> {Times}
    [] f \in {"set_option", "get_option"} -> {<<"name", "key", {"warnings"}>>}
    [] OTHER -> {}
Unfit(e) == {r \in Rules(e.fn) : ~Holds(e, r)}
=============================================================================
