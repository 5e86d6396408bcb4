------------------------------- MODULE Forms -------------------------------
(***************************************************************************)
(* The life of a page after it was read: it is copied, borrowed, taken     *)
(* over and written as JSON and read back, in any order.  Whatever         *)
(* happens, it is the page it was; only whether it owns its text changes.  *)
(***************************************************************************)
EXTENDS Pages
CONSTANT Steps
VARIABLES did,      \* the conversions so far
          owns      \* whether the page now owns its text
Convs == {"clone", "borrow", "own", "json", "value"}
FInit == Init /\ did = <<>> /\ owns = FALSE
Type == did = <<>> /\ Next /\ UNCHANGED << did, owns >>
TypeSim == did = <<>> /\ NextSim /\ UNCHANGED << did, owns >>
\* what a conversion does to the ownership
Conv(c) == /\ Len(did) < Steps /\ did' = Append(did, c) /\ UNCHANGED toks
           /\ owns' = CASE c = "clone" -> owns [] c = "borrow" -> FALSE
                        [] c \in {"own", "json", "value"} -> TRUE
FNext == Type \/ \E c \in Convs : Conv(c)
FNextSim == IF Len(toks) < N THEN TypeSim ELSE \E c \in {RandomElement(Convs)} : Conv(c)
LastDid(c) == did # <<>> /\ did[Len(did)] = c
\* ownership is decided by the last conversion that touches it
OwnsOK == (LastDid("own") \/ LastDid("json") => owns) /\ (LastDid("borrow") => ~owns)
EmitForms == OwnsOK /\ (Len(did) = Steps =>
   LET s == TextOf IN PrintT(<<"E", ToJson([t |-> s, p |-> Page(s), did |-> did])>>))
=============================================================================
