------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Which configurations are accepted.                                      *)
(*                                                                         *)
(* Part 1: for every generator and class the options that it validates,    *)
(* with valid and invalid values; a configuration is accepted iff every    *)
(* option is valid.                                                        *)
(*                                                                         *)
(* Part 2: a kernel call as a sequence of launches.  Each launch looks at  *)
(* its own arguments only and refuses them unless all have the kernel's    *)
(* precision and one grid shape, the fixed one if there is one.  CallOK    *)
(* says the same about the call as a whole; MC_C26 explores the launches   *)
(* and shows that they agree with it and that a refused call has not       *)
(* written an output yet.                                                  *)
(*                                                                         *)
(* Part 3: precision names.                                                *)
(***************************************************************************)
EXTENDS OpTable
\* ------------------------------------------------------------- 1. options
Opt(name, good, bad) == [name |-> name, good |-> good, bad |-> bad]
NumBad == <<"f16", "i32", "i64", "c64", "c128", "u8">>
RealT == Opt("real_t", <<"f32", "f64">>, NumBad \o <<"str", "none">>)
RealN == Opt("real_t", <<"f32", "f64">>, NumBad)
FType == Opt("field_type", <<"scalar", "vector">>, <<"Scalar", "tensor", "empty", "none", "vectors">>)
Fixed == Opt("fixed", <<"no", "yes">>, <<>>)
Threads == Opt("nt", <<"no", "2">>, <<>>)
RingW == Opt("width", <<"1", "2", "3">>, <<"0", "m1", "m2", "h", "1h", "m1h">>)
PenW == Opt("width", <<"0", "1", "2">>, <<"m1", "m2", "h", "1h", "m1h">>)
FilterO == Opt("filter_order", <<"0", "1", "2", "3">>, <<"m1", "m2", "h", "1h", "m1h">>)
FilterT == Opt("filter_type", <<"multiplicative", "convolution">>, <<"Convolution", "gaussian", "empty", "none">>)
InterpT == Opt("interp_kernel_type", <<"cosine", "peskin">>, <<"Cosine", "PESKIN", "gauss", "empty", "none">>)
InterpW == Opt("interp_kernel_width", <<"2">>, <<"0", "1", "3", "4", "m1", "1h", "2h">>)
CommW == Opt("interp_kernel_width", <<"2">>, <<"0", "1", "3", "4", "m1", "1h", "2h", "none">>)
NComp(d) == IF d = 2 THEN Opt("n_components", <<"1", "2">>, <<"0", "3", "4", "m1", "1h", "none">>)
            ELSE Opt("n_components", <<"1", "3">>, <<"0", "2", "4", "m1", "1h", "none">>)
GridDim(n) == Opt(n, <<"2", "3">>, <<"0", "1", "4", "5", "m2", "2h", "none">>)
Base == <<RealT, Fixed, Threads>>
Plain2 == {"advection_flux_conservative_eno3_2d", "advection_timestep_euler_forward_conservative_eno3_2d", "char_func_from_level_set_via_sine_heaviside_2d",
  "diffusion_flux_2d", "diffusion_timestep_euler_forward_2d", "elementwise_complex_product_2d", "elementwise_copy_2d", "inplane_field_curl_2d",
  "outplane_field_curl_2d", "update_vorticity_from_penalised_velocity_2d", "update_vorticity_from_velocity_forcing_2d"}
Plain3 == {"advection_flux_conservative_eno3_3d", "char_func_from_level_set_via_sine_heaviside_3d", "curl_3d", "divergence_3d", "elementwise_complex_product_3d",
  "elementwise_copy_3d", "elementwise_cross_product_3d", "update_vorticity_from_penalised_velocity_3d", "update_vorticity_from_velocity_forcing_3d",
  "vorticity_stretching_flux_3d", "vorticity_stretching_timestep_euler_forward_3d", "vorticity_stretching_timestep_ssprk3_3d"}
Typed == {"add_fixed_val_2d", "add_fixed_val_3d", "advection_timestep_euler_forward_conservative_eno3_3d", "brinkmann_penalise_2d", "brinkmann_penalise_3d",
  "brinkmann_penalise_vs_fixed_val_2d", "diffusion_flux_3d", "diffusion_timestep_euler_forward_3d", "elementwise_saxpby_2d", "elementwise_saxpby_3d",
  "elementwise_sum_2d", "elementwise_sum_3d", "set_fixed_val_2d", "set_fixed_val_3d"}
Ring == {"set_fixed_val_at_boundaries_2d", "set_fixed_val_at_boundaries_3d"}
Kernels == Plain2 \cup Plain3 \cup Typed \cup Ring \cup {"penalise_field_boundary_2d", "penalise_field_boundary_3d", "laplacian_filter_3d"}
Classes == {"comm_2d", "comm_3d", "vbf", "bbf", "unbounded_2d", "unbounded_3d", "fft_2d", "fft_3d", "io", "pyst_dtype"}
Targets == Kernels \cup Classes
OptsOf(t) ==
  CASE t \in Plain2 \cup Plain3 -> Base
    [] t \in Typed -> Base \o <<FType>>
    [] t \in Ring -> <<RealT, Threads, FType, RingW>>
    [] t = "penalise_field_boundary_2d" -> Base \o <<PenW>>
    [] t = "penalise_field_boundary_3d" -> Base \o <<PenW, FType>>
    [] t = "laplacian_filter_3d" -> Base \o <<FilterO, FilterT, FType>>
    [] t = "comm_2d" -> <<InterpT, CommW, NComp(2)>>
    [] t = "comm_3d" -> <<InterpT, CommW, NComp(3)>>
    [] t \in {"vbf", "bbf"} -> <<RealN, GridDim("grid_dim"), InterpW>>
    [] t \in {"unbounded_2d", "unbounded_3d"} -> <<RealT>>
    [] t \in {"fft_2d", "fft_3d"} -> <<RealN>>
    [] t = "io" -> <<GridDim("dim")>>
    [] t = "pyst_dtype" -> <<RealT>>
SeqHas(s, x) == \E i \in 1..Len(s) : s[i] = x
OptNames(t) == {OptsOf(t)[i].name : i \in 1..Len(OptsOf(t))}
Validated(t, n) == OptsOf(t)[CHOOSE i \in 1..Len(OptsOf(t)) : OptsOf(t)[i].name = n]
\* configurations are functions from option names to names of values
Known(t, o) == DOMAIN o \subseteq OptNames(t) /\ \A n \in DOMAIN o : SeqHas(Validated(t, n).good \o Validated(t, n).bad, o[n])
ConfigOK(t, o) == \A n \in DOMAIN o : SeqHas(Validated(t, n).good, o[n])
\* --------------------------------------------------------------- 2. calls
\* coordinate fields that a kernel holds from the time it was built
Held(op, d) == IF op \in {"pen_bound", "pen_bound_v"} THEN (IF d = 2 THEN {"xg", "yg"} ELSE {"xg", "yg", "zg"}) ELSE {}
Args(op, d) == DOMAIN Decl(op, d).roles \cup Held(op, d)
Outs(op, d) == Decl(op, d).outs
Kind(op, d, r) == IF r \in Held(op, d) THEN "s" ELSE Decl(op, d).roles[r]
\* ops whose kernel has no fixed grid size
Unfixed(op) == op \in {"ring", "ring_v"}
\* w: roles that the launch writes, a: roles that it looks at, fix: it has the fixed size
Launch(w, a, fix) == [w |-> w, a |-> a, fix |-> fix]
Launches(op, d) ==
  CASE op \in {"diff_step", "diff_step_v"} -> <<Launch({"scr"}, {"scr", "f"}, TRUE), Launch({"f"}, {"f", "scr"}, TRUE)>>
    [] op \in {"adv_step", "adv_step_v"} -> <<Launch({"scr"}, {"scr"}, TRUE), Launch({"scr"}, {"scr", "f", "v"}, TRUE), Launch({"f"}, {"f", "scr"}, TRUE)>>
    [] op = "stretch_euler" -> <<Launch({"scr"}, {"scr", "w", "v"}, TRUE), Launch({"w"}, {"w", "scr"}, TRUE)>>
    [] op = "stretch_rk3" -> <<Launch({"scr"}, {"scr", "w", "v"}, TRUE), Launch({"mid"}, {"mid", "w", "scr"}, TRUE), Launch({"scr"}, {"scr", "mid", "v"}, TRUE),
                               Launch({"mid"}, {"mid", "scr"}, TRUE), Launch({"mid"}, {"mid", "w"}, TRUE), Launch({"scr"}, {"scr", "mid", "v"}, TRUE),
                               Launch({"mid"}, {"mid", "scr"}, TRUE), Launch({"w"}, {"w", "mid"}, TRUE)>>
    [] op \in {"filter", "filter_v"} -> <<Launch({"scr"}, {"scr"}, FALSE), Launch({"mid"}, {"mid", "f"}, TRUE), Launch({"scr"}, {"scr", "mid"}, TRUE),
                                          Launch({"mid"}, {"mid", "scr"}, TRUE), Launch({"f"}, {"f", "scr"}, TRUE)>>
    [] op \in {"pen_bound", "pen_bound_v"} -> <<Launch({}, {"f"} \cup Held(op, d), TRUE), Launch({"f"}, {"f", "xg"}, TRUE), Launch({"f"}, {"f", "yg"}, TRUE)>>
                                              \o (IF d = 3 THEN <<Launch({"f"}, {"f", "zg"}, TRUE)>> ELSE <<>>)
    [] op \in {"ring", "ring_v"} -> <<Launch({"out"}, {"out"}, FALSE)>>
    [] OTHER -> <<Launch(Outs(op, d), DOMAIN Decl(op, d).roles, TRUE)>>
\* an argument: [t: has the kernel's precision, s: shape of its grid axes]
LaunchOK(la, args, fx, size) ==
  /\ \A r \in la.a : args[r].t
  /\ \A r, q \in la.a : args[r].s = args[q].s
  /\ fx /\ la.fix => \A r \in la.a : args[r].s = size
CallOK(op, d, args, fx, size) ==
  /\ \A r \in Args(op, d) : args[r].t
  /\ \A r, q \in Args(op, d) : args[r].s = args[q].s
  /\ fx /\ ~Unfixed(op) => \A r \in Args(op, d) : args[r].s = size
\* faults of one argument
Grow(s, a, k) == [s EXCEPT ![a + 1] = @ + k]
FaultAxis(f) == CHOOSE a \in 0..2 : f \in {"long" \o ToString(a), "short" \o ToString(a)}
FaultShape(f, s) == IF f \in {"long0", "long1", "long2"} THEN Grow(s, FaultAxis(f), 1) ELSE IF f \in {"short0", "short1", "short2"} THEN Grow(s, FaultAxis(f), -1) ELSE s
FaultsOf(d) == {"prec", "int"} \cup {"long" \o ToString(a) : a \in 0..(d - 1)} \cup {"short" \o ToString(a) : a \in 0..(d - 1)}
\* size: the fixed size and that of the held fields; base: that of the others
ArgsOf(op, d, faults, size, base) ==
  [r \in Args(op, d) |-> LET f == IF r \in DOMAIN faults THEN faults[r] ELSE "" IN
     [t |-> f \notin {"prec", "int"}, s |-> FaultShape(f, IF r \in Held(op, d) THEN size ELSE base)]]
Few(faults) == \E r \in DOMAIN faults : faults[r] = "fewer"
\* --------------------------------------------------------------- 3. names
Precisions == [single |-> 4, double |-> 8]
DefaultName == "single"
=============================================================================
