------------------------------------ MODULE Ids ------------------------------------
(* Ids handed out to several threads are all different.  The recorded ids are         *)
(* renumbered by first appearance.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Empty == [on |-> FALSE, given |-> {}]
Event(st, e) ==
  CASE e.op = "new" -> {[on |-> TRUE, given |-> {}]}
    [] e.op = "id"  -> IF st.on /\ e.v \notin st.given THEN {[st EXCEPT !.given = @ \cup {e.v}]} ELSE {}
    [] e.op = "fin" -> {Empty}
    [] OTHER -> {}
Distinct(st) == IsFiniteSet(st.given)
==================================================================================
