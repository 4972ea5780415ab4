------------------------------- MODULE CoreMC -------------------------------
(* Exploration of generated programs: every step of every program on every argument set. *)
EXTENDS Gen, Json
CONSTANTS SeedLo, SeedHi, MaxSteps, NArgs
VARIABLES seed, arg
vars == <<seed, arg, prog, ctl, kont, env, sto, log, live, nid, pc>>

ArgSets == << <<0, 1, 2>>, <<3, -1, 5>>, <<-2, 2, 0>>, <<7, 4, -6>> >>

None_ == [k |-> "none"]
Init == /\ seed \in SeedLo..SeedHi /\ arg = 0
        /\ prog = None_ /\ ctl = [m |-> "load"] /\ kont = Halt /\ env = <<>> /\ sto = <<>>
        /\ log = <<>> /\ live = {} /\ nid = 1 /\ pc = 0

Load ==
  /\ ctl.m = "load"
  /\ LET p == GenProg(seed) IN
     /\ PrintT(ToJson([prog |-> seed, funs |-> p.funs, main |-> p.main]))
     /\ prog' = p
  /\ ctl' = [m |-> "start"] /\ pc' = 1
  /\ UNCHANGED <<seed, arg, kont, env, sto, log, live, nid>>

Start ==
  /\ ctl.m = "start"
  /\ \E i \in 1..NArgs :
       LET as == ArgSets[i] IN
       /\ arg' = i
       /\ env' = [j \in 1..3 |-> Bind(prog.main.ps[j].n, j, <<>>, 0, FALSE)]
       /\ sto' = [j \in 1..3 |-> VI(as[j])]
  /\ ctl' = EV(prog.main.b) /\ pc' = 2
  /\ UNCHANGED <<seed, prog, kont, log, live, nid>>

Execute == ctl.m \notin {"load", "start", "end"} /\ pc < MaxSteps /\ Step /\ UNCHANGED <<seed, arg>>

Budget == /\ ctl.m \notin {"load", "start", "end"} /\ pc >= MaxSteps
          /\ ctl' = Done("discard", "steps", VU) /\ kont' = Halt /\ env' = <<>> /\ sto' = <<>> /\ live' = {} /\ pc' = pc + 1
          /\ UNCHANGED <<seed, arg, prog, log, nid>>

Report ==
  /\ ctl.m = "end" /\ ctl.o # "reported"
  /\ PrintT(ToJson([run |-> seed, arg |-> arg, args |-> ArgSets[arg], o |-> ctl.o, s |-> ctl.s, v |-> ctl.v, log |-> log, pc |-> pc]))
  /\ ctl' = [ctl EXCEPT !.o = "reported"] /\ pc' = pc + 1
  /\ prog' = None_ /\ sto' = <<>> /\ env' = <<>> /\ log' = <<>>
  /\ UNCHANGED <<seed, arg, kont, live, nid>>

Next == Load \/ Start \/ Execute \/ Budget \/ Report
Spec == Init /\ [][Next]_vars
View == <<seed, arg, pc>>

\* Invariants
NotStuck == ctl.m = "end" \/ pc >= MaxSteps \/ ENABLED Next
NoDoubleDrop == -1 \notin live
\* at the end exactly the instances held by the result are alive
NoLeak == (ctl.m = "end" /\ ctl.o \in {"ok", "fail"}) => live = IdSet(ctl.v)
=============================================================================
