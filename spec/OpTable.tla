------------------------------- MODULE OpTable -------------------------------
(***************************************************************************)
(* What the actions of Machine declare: for each operation its roles with   *)
(* their kinds (s scalar, v vector, c complex field), which roles are       *)
(* outputs and which are scratch, the stencil radius and the width of the   *)
(* border that the operation does not write (0: writes everywhere).         *)
(***************************************************************************)
EXTENDS Machine
R(roles, outs, scr, rad, border) == [roles |-> roles, outs |-> outs, scr |-> scr, rad |-> rad, border |-> border]
\* k: kind of the vorticity, scalar in 2D and vector in 3D
Decl(op, d) == LET k == IF d = 2 THEN "s" ELSE "v" IN
  CASE op = "diff_flux"     -> R([out |-> "s", f |-> "s"], {"out"}, {}, 1, 0)
    [] op = "diff_flux_v"   -> R([out |-> "v", f |-> "v"], {"out"}, {}, 1, 0)
    [] op = "diff_step"     -> R([f |-> "s", scr |-> "s"], {"f"}, {"scr"}, 1, 1)
    [] op = "diff_step_v"   -> R([f |-> "v", scr |-> "s"], {"f"}, {"scr"}, 1, 1)
    [] op = "adv_flux"      -> R([out |-> "s", f |-> "s", v |-> "v"], {"out"}, {}, 2, 2)
    [] op = "adv_step"      -> R([f |-> "s", v |-> "v", scr |-> "s"], {"f"}, {"scr"}, 2, 2)
    [] op = "adv_step_v"    -> R([f |-> "v", v |-> "v", scr |-> "s"], {"f"}, {"scr"}, 2, 2)
    [] op = "curl_in"       -> R([out |-> "s", f |-> "v"], {"out"}, {}, 1, 1)
    [] op = "curl_out"      -> R([out |-> "v", f |-> "s"], {"out"}, {}, 1, 0)
    [] op = "curl3"         -> R([out |-> "v", f |-> "v"], {"out"}, {}, 1, 0)
    [] op = "div3"          -> R([out |-> "s", f |-> "v"], {"out"}, {}, 1, 0)
    [] op = "vort_force"    -> R([w |-> k, f |-> "v"], {"w"}, {}, 1, 1)
    [] op = "vort_pen"      -> R([w |-> k, pv |-> "v", v |-> "v"], {"w"}, {}, 1, 1)
    [] op = "stretch_flux"  -> R([out |-> "v", w |-> "v", v |-> "v"], {"out"}, {}, 1, 0)
    [] op = "stretch_euler" -> R([w |-> "v", v |-> "v", scr |-> "v"], {"w"}, {"scr"}, 1, 1)
    [] op = "stretch_rk3"   -> R([w |-> "v", v |-> "v", scr |-> "v", mid |-> "v"], {"w"}, {"scr", "mid"}, 1, 1)
    [] op = "brink"         -> R([out |-> "s", f |-> "s", chi |-> "s", t |-> "s"], {"out"}, {}, 0, 0)
    [] op = "brink_v"       -> R([out |-> "v", f |-> "v", chi |-> "s", t |-> "v"], {"out"}, {}, 0, 0)
    [] op = "brinkfix"      -> R([out |-> "s", f |-> "s", chi |-> "s"], {"out"}, {}, 0, 0)
    [] op = "brinkfix_v"    -> R([out |-> "v", f |-> "v", chi |-> "s"], {"out"}, {}, 0, 0)
    [] op \in {"sum", "saxpby"}     -> R([out |-> "s", f |-> "s", g |-> "s"], {"out"}, {}, 0, 0)
    [] op \in {"sum_v", "saxpby_v"} -> R([out |-> "v", f |-> "v", g |-> "v"], {"out"}, {}, 0, 0)
    [] op = "cprod"         -> R([out |-> "c", f |-> "c", g |-> "c"], {"out"}, {}, 0, 0)
    [] op = "cross"         -> R([out |-> "v", f |-> "v", g |-> "v"], {"out"}, {}, 0, 0)
    [] op \in {"set", "ring"}       -> R([out |-> "s"], {"out"}, {}, 0, 0)
    [] op \in {"set_v", "ring_v"}   -> R([out |-> "v"], {"out"}, {}, 0, 0)
    [] op \in {"copy", "add"}       -> R([out |-> "s", f |-> "s"], {"out"}, {}, 0, 0)
    [] op = "add_v"         -> R([out |-> "v", f |-> "v"], {"out"}, {}, 0, 0)
    [] op = "filter"        -> R([f |-> "s", scr |-> "s", mid |-> "s"], {"f"}, {"scr", "mid"}, 3, 1)
    [] op = "filter_v"      -> R([f |-> "v", scr |-> "s", mid |-> "s"], {"f"}, {"scr", "mid"}, 3, 1)
    [] op = "pen_bound"     -> R([f |-> "s"], {"f"}, {}, 3, 0)
    [] op = "pen_bound_v"   -> R([f |-> "v"], {"f"}, {}, 3, 0)
Ops2 == {"diff_flux", "diff_step", "adv_flux", "adv_step", "curl_in", "curl_out", "vort_force", "vort_pen", "brink",
         "brink_v", "brinkfix", "brinkfix_v", "sum", "sum_v", "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod",
         "add", "add_v", "ring", "ring_v", "pen_bound"}
Ops3 == {"diff_flux", "diff_flux_v", "diff_step", "diff_step_v", "adv_flux", "adv_step", "adv_step_v", "curl3", "div3",
         "vort_force", "vort_pen", "stretch_flux", "stretch_euler", "stretch_rk3", "brink", "brink_v", "sum", "sum_v",
         "saxpby", "saxpby_v", "set", "set_v", "copy", "cprod", "cross", "add", "add_v", "ring", "ring_v", "filter",
         "filter_v", "pen_bound", "pen_bound_v"}
OpsOf(d) == IF d = 2 THEN Ops2 ELSE Ops3
LenOf(G, kind) == CASE kind = "s" -> G.n [] kind = "v" -> G.d * G.n [] kind = "c" -> 2 * G.n
\* every field that is an input: read by the operation
Inputs(op, d) == {r \in DOMAIN Decl(op, d).roles : r \notin Decl(op, d).scr}
=============================================================================
