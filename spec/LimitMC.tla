------------------------------ MODULE LimitMC ------------------------------
(***************************************************************************)
(* The core machine under resource limits.                                 *)
(*                                                                         *)
(* Fuel is spent by starting an iteration of a loop.  A step that would    *)
(* start an iteration with no fuel left does not happen: the run ends at   *)
(* once in a sandbox violation, keeping the log written so far - nothing   *)
(* is dropped, no surrounding code and no cleanup runs.                    *)
(* `mx` records the deepest nesting of calls the run reaches.              *)
(***************************************************************************)
EXTENDS CoreMC
NoLim == 9999
CONSTANTS Limits        \* set of fuel limits; NoLim stands for none
VARIABLES lim, fuel, mx, lib
lvars == <<seed, arg, prog, ctl, kont, env, sto, log, live, nid, pc, lim, fuel, mx, lib>>

LInit == Init /\ lim = NoLim /\ fuel = 0 /\ mx = 0 /\ lib = FALSE
LLoad == Load /\ UNCHANGED <<lim, fuel, mx, lib>>
LStart == Start /\ lim' \in Limits /\ UNCHANGED <<fuel, mx, lib>>

RECURSIVE Nest(_)
Nest(k) == IF k.f.k = "halt" THEN 0 ELSE (IF k.f.k = "call" THEN 1 ELSE 0) + Nest(k.r)

\* the step just described by the primed variables starts an iteration
ForTurn == \/ ctl.m = "rv" /\ kont.f.k \in {"for0", "for"}
           \/ ctl.m = "jm" /\ kont.f.k = "for" /\ ctl.j = "continue" /\ (ctl.s = "" \/ ctl.s = kont.f.e.s)
LoopTurn == /\ ctl'.m = "ev" /\ kont'.f.k = "loop" /\ ctl'.e = kont'.f.e.c[1]
Turn == ForTurn \/ LoopTurn

\* library operations written in the language itself: they may turn loops of their own (`lib`: one has run)
LibOps == {"append", "prepend", "popb", "popf", "each", "fstr", "idx"}

LExecute ==
  /\ Execute
  /\ fuel' = fuel + (IF Turn THEN 1 ELSE 0)
  /\ lim = NoLim \/ fuel' <= lim
  /\ mx' = (IF ctl'.m = "ev" /\ kont'.f.k = "call" /\ Nest(kont') > mx THEN Nest(kont') ELSE mx)
  /\ lib' = (lib \/ (ctl.m = "ap" /\ ctl.e.k \in LibOps))
  /\ UNCHANGED lim

\* the machine could move, but the move would start an iteration that is not paid for
CanMove == /\ ctl.m \notin {"load", "start", "end"} /\ pc < MaxSteps
MayTurn == ForTurn \/ (ctl.m = "ev" /\ ctl.e.k = "loop") \/ (ctl.m = "rv" /\ kont.f.k = "loop")
           \/ (ctl.m = "jm" /\ kont.f.k = "loop" /\ ctl.j = "continue" /\ (ctl.s = "" \/ ctl.s = kont.f.e.s))
LStop ==
  /\ CanMove /\ lim # NoLim /\ fuel = lim /\ MayTurn
  /\ ctl' = Done("sandbox", "fuel", VU) /\ kont' = Halt /\ env' = <<>> /\ sto' = <<>> /\ pc' = pc + 1
  /\ UNCHANGED <<seed, arg, prog, log, live, nid, lim, fuel, mx, lib>>

LBudget == Budget /\ UNCHANGED <<lim, fuel, mx, lib>>
LReport ==
  /\ ctl.m = "end" /\ ctl.o # "reported"
  /\ PrintT(ToJson([run |-> seed, arg |-> arg, args |-> ArgSets[arg], o |-> ctl.o, s |-> ctl.s, v |-> ctl.v, log |-> log,
                    lim |-> lim, fuel |-> fuel, mx |-> mx, lib |-> lib]))
  /\ ctl' = [ctl EXCEPT !.o = "reported"] /\ pc' = pc + 1
  /\ prog' = None_ /\ sto' = <<>> /\ env' = <<>> /\ log' = <<>>
  /\ UNCHANGED <<seed, arg, kont, live, nid, lim, fuel, mx, lib>>

LNext == LLoad \/ LStart \/ LExecute \/ LStop \/ LBudget \/ LReport
LSpec == LInit /\ [][LNext]_lvars
LView == <<seed, arg, lim, pc>>

\* never more iterations than paid for, and a stopped run owns whatever it owned: nothing was dropped by stopping
Paid == lim = NoLim \/ fuel <= lim
=============================================================================
