-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Names of modules: visibility, paths, use declarations, wildcards.        *)
(*                                                                          *)
(* A session loads the modules of a seeded program one by one (w, a, a::k,  *)
(* b, then the last, n).  A module has use declarations, items (functions,  *)
(* structs, enums, traits; public or not) whose bodies name items of        *)
(* earlier modules or of their own, and the last one a query: one way of    *)
(* naming an item.  Every item has a number, which its use gives.           *)
(*                                                                          *)
(* TLC checks in every state that what a name leads to is an item of that   *)
(* name which is public or of the module itself, that a bare name leads     *)
(* elsewhere only through a use declaration, and that imported names are    *)
(* neither imported twice nor defined by the module.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Rng2
CONSTANTS SeedLo, SeedHi
VARIABLES seed, at, env, out, made
vars == <<seed, at, env, out, made>>

Mods == <<"a", "k", "b", "n">>
Names == <<"f", "g", "count", "T", "U", "E", "R">>
KindOf == [f |-> "fn", g |-> "fn", count |-> "fn", T |-> "st", U |-> "st", E |-> "en", R |-> "tr"]
Base == [a |-> 100, k |-> 200, b |-> 300, n |-> 400]
Nth == [f |-> 1, g |-> 2, count |-> 3, T |-> 4, U |-> 5, E |-> 6, R |-> 7]
NoMod == [items |-> {}, pub |-> {}, ex |-> {}, gl |-> <<>>, loaded |-> FALSE]
\* the library defines a public function count (the length of a sequence)
Std == [items |-> {"count"}, pub |-> {"count"}, ex |-> {}, gl |-> <<>>, loaded |-> TRUE]

Visible(e, m, x) == e[m].loaded /\ x \in e[m].pub
\* what the bare name x is in a module with environment c: own items first, then explicit imports, then wildcards with the library's
Glob(c) == <<"std">> \o c.gl
Bare(e, me, c, x) ==
  IF x \in c.items THEN <<"ok", me>>
  ELSE LET s == {u \in c.ex : u[2] = x} IN
       IF s # {} THEN <<"ok", (CHOOSE u \in s : TRUE)[1]>>
       ELSE LET hit == {i \in 1..Len(Glob(c)) : Visible(e, Glob(c)[i], x)} IN
            IF hit = {} THEN <<"none", "">> ELSE IF Cardinality(hit) > 1 THEN <<"clash", "">> ELSE <<"ok", Glob(c)[CHOOSE i \in hit : TRUE]>>
\* through the path of another module; the module being compiled has no path yet
ByPath(e, me, m, x) == IF m # me /\ Visible(e, m, x) THEN <<"ok", m>> ELSE <<"none", "">>
\* the traits with method r that are in sight: own, imported by name, and of wildcards
Methods(e, me, c) == (IF "R" \in c.items THEN {me} ELSE {}) \cup {u[1] : u \in {v \in c.ex : v[2] = "R"}}
                     \cup {Glob(c)[i] : i \in {j \in 1..Len(Glob(c)) : Visible(e, Glob(c)[j], "R")}}
Look(e, me, c, q) ==
  CASE q.k = "path" -> ByPath(e, me, q.m, q.x)
    [] q.k = "bare" -> Bare(e, me, c, q.x)
    [] q.k = "meth" -> LET s == Methods(e, me, c) IN IF s = {} THEN <<"none", "">> ELSE IF Cardinality(s) > 1 THEN <<"clash", "">> ELSE <<"ok", CHOOSE m \in s : TRUE>>
    [] q.k = "own" -> <<"ok", me>>

-----------------------------------------------------------------------------
\* use declarations: [m, x] with x a name or "*"
UseOk(e, me, items, ex, u) ==
  /\ u.m # me /\ u.m # "zz" /\ (u.m = "std" \/ e[u.m].loaded)
  /\ u.x # "*" => /\ Visible(e, u.m, u.x) /\ u.x \notin items /\ ~\E v \in ex : v[2] = u.x
WhyNot(e, me, items, ex, u) ==
  IF u.m = me \/ u.m = "zz" \/ ~(u.m = "std" \/ e[u.m].loaded) THEN "missing" ELSE IF u.x = "*" THEN "" ELSE IF ~Visible(e, u.m, u.x) THEN "missing"
  ELSE IF u.x \in items THEN "local" ELSE IF \E v \in ex : v[2] = u.x THEN "twice" ELSE ""
RECURSIVE TakeUses(_, _, _, _, _)
\* the environment after the uses, or the first that is wrong
TakeUses(e, me, items, us, acc) ==
  IF us = <<>> \/ acc.bad # "" THEN acc
  ELSE LET u == Head(us) w == WhyNot(e, me, items, acc.ex, u) IN
       TakeUses(e, me, items, Tail(us), IF w # "" THEN [acc EXCEPT !.bad = w]
                                        ELSE IF u.x = "*" THEN [acc EXCEPT !.gl = Append(@, u.m)] ELSE [acc EXCEPT !.ex = @ \cup {<<u.m, u.x>>}])
RECURSIVE KeepUses(_, _, _, _, _, _)
KeepUses(e, me, items, us, ex, acc) ==
  IF us = <<>> THEN acc
  ELSE IF UseOk(e, me, items, ex, Head(us))
  THEN KeepUses(e, me, items, Tail(us), IF Head(us).x = "*" THEN ex ELSE ex \cup {<<Head(us).m, Head(us).x>>}, Append(acc, Head(us)))
  ELSE KeepUses(e, me, items, Tail(us), ex, acc)

GenUse(s, me) ==
  LET ms == IF me = "n" THEN << <<5, "a">>, <<4, "k">>, <<5, "b">>, <<1, "std">>, <<1, "zz">> >> ELSE << <<5, "a">>, <<4, "k">>, <<2, "b">>, <<1, "std">> >>
      m == PickW(Sub(s, 1), ms)
  IN [m |-> m, x |-> IF m = "std" THEN "count" ELSE IF Chance(Sub(s, 2), 35) THEN "*"
                     ELSE PickW(Sub(s, 3), << <<5, "f">>, <<4, "g">>, <<3, "count">>, <<4, "T">>, <<2, "U">>, <<3, "E">>, <<4, "R">>, <<1, "k">> >>), st |-> Rnd(Sub(s, 4), 4)]
GenItems(s, me) == {x \in {Names[i] : i \in 1..Len(Names)} : Chance(Sub(s, Nth[x]), IF me = "n" THEN IF x = "count" THEN 10 ELSE 20 ELSE IF x = "count" THEN 35 ELSE 65)}
GenPub(s, items) == {x \in items : Chance(Sub(s, 20 + Nth[x]), 60)}
GenQuery(s, me) ==
  LET x == PickW(Sub(s, 1), << <<4, "f">>, <<3, "g">>, <<3, "count">>, <<4, "T">>, <<2, "U">>, <<3, "E">>, <<4, "R">> >>)
      k == PickW(Sub(s, 2), << <<3, "path">>, <<5, "bare">> >>)
  IN [k |-> IF x = "R" /\ Chance(Sub(s, 3), 50) THEN "meth" ELSE k, x |-> x, m |-> PickW(Sub(s, 4), << <<5, "a">>, <<3, "k">>, <<4, "b">>, <<1, "n">> >>),
      form |-> Rnd(Sub(s, 5), 4)]
\* the value of a query that leads to module m: of a function, its number and what its own body names
Num(m, x) == IF m = "std" THEN 2 ELSE Base[m] + Nth[x]
Val(mk, m, x) == IF m = "std" THEN 2 ELSE IF x \in {"f", "g"} THEN mk[m][x].v ELSE Num(m, x)

Init == /\ seed \in SeedLo..SeedHi /\ at = 1 /\ env = [m \in {"a", "k", "b", "n", "std", "zz"} |-> IF m = "std" THEN Std ELSE NoMod]
        /\ out = [v |-> "", n |-> 0] /\ made = [m \in {"a", "k", "b", "n"} |-> [f |-> [q |-> <<>>, v |-> 0], g |-> [q |-> <<>>, v |-> 0], uses |-> <<>>, query |-> <<>>]]
Load ==
  /\ at <= 4
  /\ LET me == Mods[at] s == Sub(Seed(seed), at)
         items == GenItems(Sub(s, 1), me) pub == GenPub(Sub(s, 2), items)
         us0 == [i \in 1..(IF me = "n" THEN 1 + Rnd(Sub(s, 3), 4) ELSE Rnd(Sub(s, 3), 3)) |-> GenUse(Sub(s, 30 + i), me)]
         \* the modules of the session are correct; the last one may not be
         us == IF me # "n" \/ Chance(Sub(s, 4), 70) THEN KeepUses(env, me, items, us0, {}, <<>>) ELSE us0
         t == TakeUses(env, me, items, us, [ex |-> {}, gl |-> <<>>, bad |-> ""])
         c == [items |-> items, pub |-> pub, ex |-> t.ex, gl |-> t.gl, loaded |-> t.bad = ""]
         \* the body of a function: its number, sometimes with what a name leads to (f of its own module is not named, to stay well-founded)
         Body(x) == LET q == GenQuery(Sub(s, 40 + Nth[x]), me) l == IF t.bad = "" THEN Look(env, me, c, q) ELSE <<"none", "">>
                        go == Chance(Sub(s, 50), 60) /\ l[1] = "ok" /\ (l[2] = me => q.x \notin {"f", "g"})
                    IN IF go THEN [q |-> <<q>>, v |-> Num(me, x) + Val(made, l[2], q.x)] ELSE [q |-> <<>>, v |-> Num(me, x)]
         \* the first of a few that leads somewhere, or to several items
         qs == [i \in 1..4 |-> GenQuery(Sub(s, 60 + i), me)]
         good == {i \in 1..4 : Look(env, me, c, qs[i])[1] # "none"}
         Query == IF good = {} \/ Chance(Sub(s, 70), 25) THEN qs[1] ELSE qs[CHOOSE i \in good : \A j \in good : i <= j]
         mk == [made EXCEPT ![me] = [f |-> Body("f"), g |-> Body("g"), uses |-> us, query |-> IF me = "n" THEN <<Query>> ELSE <<>>]]
     IN /\ made' = mk /\ env' = [env EXCEPT ![me] = c] /\ at' = at + 1
        /\ IF me # "n" THEN out' = out
           ELSE LET q == mk.n.query[1] l == Look(env, me, c, q) IN
                out' = IF t.bad # "" THEN [v |-> t.bad, n |-> 0] ELSE IF l[1] # "ok" THEN [v |-> l[1], n |-> 0] ELSE [v |-> "ok", n |-> Val(mk, l[2], q.x)]
  /\ UNCHANGED seed
Report == /\ at = 5 /\ at' = 6 /\ PrintT(ToJson([seed |-> seed, mods |-> [m \in {"a", "k", "b", "n"} |-> [items |-> env[m].items, pub |-> env[m].pub, made |-> made[m]]], out |-> out]))
          /\ UNCHANGED <<seed, env, out, made>>
Next == Load \/ Report
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Loaded == {m \in {"a", "k", "b", "n"} : env[m].loaded}
Queries(me) == [k : {"bare"}, x : {"f", "g", "count", "T", "U", "E", "R"}, m : {"a"}] \cup [k : {"path"}, x : {"f", "g", "count", "T", "U", "E", "R"}, m : {"a", "k", "b", "n"}]
\* what a name leads to has this name and is public or of the module itself
Reach == \A me \in Loaded : \A q \in Queries(me) : LET l == Look(env, me, env[me], q) IN
           l[1] = "ok" => /\ q.x \in env[l[2]].items /\ (l[2] # me => q.x \in env[l[2]].pub) /\ (q.k = "path" => l[2] = q.m)
\* a bare name leads elsewhere only through a use declaration
Imported == \A me \in Loaded : \A q \in Queries(me) : LET l == Look(env, me, env[me], q) IN
              (l[1] = "ok" /\ q.k = "bare" /\ l[2] \notin {me, "std"}) => <<l[2], q.x>> \in env[me].ex \/ \E i \in 1..Len(env[me].gl) : env[me].gl[i] = l[2]
\* no import hides a definition or another import
Unshadowed == \A me \in Loaded : \A u, v \in env[me].ex : u[2] \notin env[me].items /\ (u[2] = v[2] => u = v)
\* a definition is never hidden
OwnFirst == \A me \in Loaded : \A x \in env[me].items : Bare(env, me, env[me], x) = <<"ok", me>>
=============================================================================
