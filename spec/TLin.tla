-------------------------------- MODULE TLin --------------------------------
(* C09: a recorded concurrent history of one pickle file is accepted if      *)
(* there is an order of its operations, consistent with real time, in which  *)
(* every read returns the value of the latest write. Events come in the      *)
(* order of the clock: [ev: "inv", id, op, v, res] and [ev: "res", id].      *)
(* op: read, write, badwrite (a value that cannot be pickled), hold (another *)
(* program holds the lock); res: ok, missing, locked, crash, error.          *)
(* TLC searches for the order; an accepted history is printed.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, i, val, pend, contended, left
\* pend: [id -> "no" | "yes"] for the operations going on: taken effect or not;
\* contended: those that met another operation; left: some lock was left behind.
Trace == Traces[t]
Ev == Trace.events[i]
Op(id) == Trace.ops[id]
Init == /\ t \in DOMAIN Traces /\ i = 1 /\ val = Traces[t].start
        /\ pend = [x \in {} |-> "no"] /\ contended = {} /\ left = FALSE
Held == \E id \in DOMAIN pend : Op(id).op = "hold" /\ pend[id] = "yes"
Take(id) ==
    /\ pend[id] = "no"
    /\ CASE Op(id).op = "hold" -> ~Held /\ UNCHANGED val
         [] Op(id).op = "write" /\ Op(id).res \in {"ok", "crash"} -> ~Held /\ val' = Op(id).v
         [] Op(id).op = "read" /\ Op(id).res = "ok" -> ~Held /\ val = Op(id).v /\ val /= 0 /\ UNCHANGED val
         [] Op(id).op = "read" /\ Op(id).res = "missing" -> val = 0 /\ UNCHANGED val
         [] OTHER -> FALSE
    /\ pend' = [pend EXCEPT ![id] = "yes"]
    /\ UNCHANGED <<t, i, contended, left>>
Invoke == /\ i <= Len(Trace.events) /\ Ev.ev = "inv"
          /\ pend' = (Ev.id :> "no") @@ pend
          /\ contended' = IF DOMAIN pend /= {} \/ left THEN contended \cup DOMAIN pend \cup {Ev.id} ELSE contended
          /\ i' = i + 1 /\ UNCHANGED <<t, val, left>>
Finish(id) ==
    CASE Op(id).res \in {"ok", "missing"} -> pend[id] = "yes"
      [] Op(id).res = "locked" -> pend[id] = "no" /\ id \in contended
      [] Op(id).res = "crash" -> TRUE
      [] Op(id).res = "error" -> pend[id] = "no" /\ Op(id).op = "badwrite"
      [] OTHER -> FALSE
Respond == /\ i <= Len(Trace.events) /\ Ev.ev = "res"
           /\ Finish(Ev.id)
           /\ pend' = [x \in DOMAIN pend \ {Ev.id} |-> pend[x]]
           /\ left' = (left \/ Op(Ev.id).res = "crash")
           /\ i' = i + 1 /\ UNCHANGED <<t, val, contended>>
\* The file is looked at when nothing is going on.
Look == /\ i <= Len(Trace.events) /\ Ev.ev = "see" /\ Ev.v = val
        /\ i' = i + 1 /\ UNCHANGED <<t, val, pend, contended, left>>
Next == \/ Invoke \/ Respond \/ Look \/ \E id \in DOMAIN pend : Take(id)
Spec == Init /\ [][Next]_<<t, i, val, pend, contended, left>>
Accept == i = Len(Trace.events) + 1 => PrintT(ToJson([accept |-> Trace.id]))
=============================================================================
