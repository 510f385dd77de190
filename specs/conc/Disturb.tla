----------------------------- MODULE Disturb -----------------------------
(* Calls on separate objects.  A call takes its argument, works with a     *)
(* scratch cell, a table made once and a setting of the process, and       *)
(* returns F(arg).  Threads make calls one after another; every step of    *)
(* one may fall between any two steps of another.  Whatever the others do  *)
(* and did before, a call gives what it gives alone.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Args, MaxCalls, Variant
VARIABLES pc, arg, own, shared, table, ready, setting, saved, cache, res, n
vars == <<pc, arg, own, shared, table, ready, setting, saved, cache, res, n>>
(* the table the function needs, and the setting it works under *)
Table == 7
Usual == 0
Wanted == 1
F(a) == 10 * a + Table                    \* under the usual setting
G(a) == F(a) + 100                        \* a function that reads the setting says so
Shown(a, s) == IF s = Usual THEN G(a) ELSE G(a) + 1000 * s

Init ==
  /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ own = [t \in Threads |-> 0]
  /\ shared = 0 /\ table = 0 /\ ready = FALSE /\ setting = Usual /\ saved = [t \in Threads |-> Usual]
  /\ cache = <<>> /\ res = [t \in Threads |-> <<>>] /\ n = 0

Call(t) ==
  /\ pc[t] = "idle" /\ n < MaxCalls
  /\ \E a \in Args, k \in {"f", "g"} :
       /\ arg' = [arg EXCEPT ![t] = a]
       /\ pc' = [pc EXCEPT ![t] = IF k = "g" THEN "read" ELSE IF Variant = "ambient" THEN "set" ELSE "prepare"]
  /\ n' = n + 1
  /\ UNCHANGED <<own, shared, table, ready, setting, saved, cache, res>>

(* a table made when it is first needed *)
Prepare(t) ==
  /\ pc[t] = "prepare"
  /\ IF ready THEN pc' = [pc EXCEPT ![t] = "put"] /\ UNCHANGED <<table, ready>>
     ELSE IF Variant = "lazy"
     THEN ready' = TRUE /\ table' = table /\ pc' = [pc EXCEPT ![t] = "fill"]
     ELSE table' = Table /\ ready' = ready /\ pc' = [pc EXCEPT ![t] = "publish"]
  /\ UNCHANGED <<arg, own, shared, setting, saved, cache, res, n>>
Fill(t) ==
  /\ pc[t] \in {"fill", "publish"}
  /\ table' = Table /\ ready' = TRUE
  /\ pc' = [pc EXCEPT ![t] = "put"]
  /\ UNCHANGED <<arg, own, shared, setting, saved, cache, res, n>>

(* the scratch cell *)
Put(t) ==
  /\ pc[t] = "put"
  /\ IF Variant = "static" THEN shared' = 10 * arg[t] /\ own' = own
     ELSE own' = [own EXCEPT ![t] = 10 * arg[t]] /\ shared' = shared
  /\ pc' = [pc EXCEPT ![t] = "get"]
  /\ UNCHANGED <<arg, table, ready, setting, saved, cache, res, n>>
Get(t) ==
  /\ pc[t] = "get"
  /\ LET s == IF Variant = "static" THEN shared ELSE own[t]
         hit == {i \in DOMAIN cache : cache[i][1] % 2 = arg[t] % 2}
         r == IF Variant = "cache" /\ hit # {} THEN cache[CHOOSE i \in hit : TRUE][2] ELSE s + table
     IN /\ res' = [res EXCEPT ![t] = Append(@, <<"f", arg[t], r>>)]
        /\ cache' = IF Variant = "cache" THEN Append(cache, <<arg[t], r>>) ELSE cache
  /\ pc' = [pc EXCEPT ![t] = IF Variant = "ambient" THEN "restore" ELSE "idle"]
  /\ UNCHANGED <<arg, own, shared, table, ready, setting, saved, n>>

(* a setting of the process: changed for a while and put back *)
Set(t) ==
  /\ pc[t] = "set"
  /\ saved' = [saved EXCEPT ![t] = setting] /\ setting' = Wanted
  /\ pc' = [pc EXCEPT ![t] = "prepare"]
  /\ UNCHANGED <<arg, own, shared, table, ready, cache, res, n>>
Restore(t) ==
  /\ pc[t] = "restore"
  /\ setting' = saved[t]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<arg, own, shared, table, ready, saved, cache, res, n>>
Read(t) ==
  /\ pc[t] = "read"
  /\ res' = [res EXCEPT ![t] = Append(@, <<"g", arg[t], Shown(arg[t], setting)>>)]
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<arg, own, shared, table, ready, setting, saved, cache, n>>

Next == \E t \in Threads : Call(t) \/ Prepare(t) \/ Fill(t) \/ Put(t) \/ Get(t) \/ Set(t) \/ Restore(t) \/ Read(t)
Spec == Init /\ [][Next]_vars
Alone == \A t \in Threads : \A i \in DOMAIN res[t] :
           res[t][i][3] = IF res[t][i][1] = "f" THEN F(res[t][i][2]) ELSE G(res[t][i][2])
Ambient == setting = Usual
Sym == Permutations(Threads)
=============================================================================
