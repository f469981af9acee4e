------------------------------ MODULE TracePgp ------------------------------
(***************************************************************************)
(* Do the recorded calls of the real pgp package form behaviours of Pgp?    *)
(* As in TraceApi: each line of the trace file is one independent history.  *)
(***************************************************************************)
EXTENDS Pgp, Json, IOUtils

VARIABLES t, l

Traces == ndJsonDeserialize(IOEnv.VERIF_TRACES)
Facts == [x \in {} |-> x]
PropUnderCheck == {IOEnv.VERIF_PROP}

Sub(s) == [type |-> s.type, body |-> Hex(s.body)]
SubList(ss) == [i \in 1..Len(ss) |-> Sub(ss[i])]
Event(e) ==
  CASE e.op = "pkey" -> [e EXCEPT !.seed = Hex(e.seed), !.created = Hex(e.created), !.kdf = Hex(e.kdf),
                                  !.r = IF e.r.ok THEN [e.r EXCEPT !.private = Hex(e.r.private), !.public = Hex(e.r.public), !.fp = Hex(e.r.fp)] ELSE e.r]
    [] e.op = "pencode" -> [e EXCEPT !.pw = Hex(e.pw), !.uid = Hex(e.uid), !.r.bytes = Hex(e.r.bytes)]
    [] e.op = "pset" -> [e EXCEPT !.set.uid = Hex(e.set.uid)]
    [] e.op = "pexport" -> [e EXCEPT !.pw = Hex(e.pw), !.r.bytes = Hex(e.r.bytes)]
    [] e.op = "pblock" /\ e.what = "sign" ->
         [e EXCEPT !.seed = Hex(e.seed), !.fp = Hex(e.fp), !.time = Hex(e.time), !.data = Hex(e.data),
                   !.hashed = SubList(e.hashed), !.unhashed = SubList(e.unhashed),
                   !.r = [e.r EXCEPT !.bytes = Hex(e.r.bytes), !.packet = Hex(e.r.packet), !.hash = Hex(e.r.hash),
                                     !.sigr = Hex(e.r.sigr), !.sigs = Hex(e.r.sigs)]]
    [] e.op = "pblock" /\ e.what = "uid" -> [e EXCEPT !.uid = Hex(e.uid), !.r.bytes = Hex(e.r.bytes), !.r.packet = Hex(e.r.packet)]
    [] e.op = "pblock" /\ e.what = "s2k" -> [e EXCEPT !.data = Hex(e.data), !.pw = Hex(e.pw), !.r.bytes = Hex(e.r.bytes)]
    [] OTHER -> [e EXCEPT !.data = Hex(e.data), !.r.bytes = Hex(e.r.bytes)]

TraceInit == PInit /\ t \in 1..Len(Traces) /\ l = 1
Consume == /\ l <= Len(Traces[t].ev)
           /\ PStep(Event(Traces[t].ev[l]))
           /\ l' = l + 1 /\ t' = t
Finished == l > Len(Traces[t].ev) /\ UNCHANGED <<pvars, t, l>>
TraceNext == Consume \/ Finished
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, t, l>>

Where == [trace |-> Traces[t].id, index |-> t, event |-> l,
          op |-> IF l <= Len(Traces[t].ev) THEN Traces[t].ev[l].op ELSE "end"]
=============================================================================
