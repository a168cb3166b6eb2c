------------------------------ MODULE MC_Links ------------------------------
(* Links to requirements with every short title: whatever the characters, a   *)
(* reader finds one link, and it leads to the heading of the requirement.  ASCII only: TLC    *)
(* loses other characters when it moves waiting states to disk.                               *)
EXTENDS Reports
CONSTANTS MaxLen

Chars == {"A", "b", " ", "\"", "\\", "-", "_", ":", ")", "#", "("}
Ids == {"AA", "Ab_1", "a::(T as U)::f"}

VARIABLES id, title, shown
vars == <<id, title, shown>>

Init == id \in Ids /\ title = "" /\ shown = {}
\* the title grows by one character; the report shows the requirement
Grow(c) == shown = {} /\ Len(title) < MaxLen /\ title' = title \o c /\ UNCHANGED <<id, shown>>
R == [id |-> id, title |-> IF title = "" THEN <<>> ELSE <<title>>]
Show == shown = {} /\ shown' = LinksIn("*   " \o ReqLink(R) \o " depends on ...") /\ UNCHANGED <<id, title>>
Next == Show \/ \E c \in Chars : Grow(c)
Spec == Init /\ [][Next]_vars

Heading == IF title = "" THEN id ELSE id \o ": " \o title
C24_One == shown # {} => Cardinality(shown) = 1 /\ \A x \in shown : x.ok /\ x.label = id /\ x.title = R.title
C24_Leads == shown # {} /\ Trim(title) = title => \A x \in shown : Leads(x, Heading)
=============================================================================
