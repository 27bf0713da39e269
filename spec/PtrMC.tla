-------------------------------- MODULE PtrMC --------------------------------
(* All states of the machine with a few places and allocations. *)
EXTENDS Ptr
CONSTANTS N, MaxCells
VARIABLES st
V == [t |-> "arr", e |-> <<Tk(0), Tk(0)>>]
Init == st = Ptr0(N)
Next == \E op \in Ops(st) : (op.o \in {"new", "newo"} => Len(st.cells) < MaxCells) /\ st' = After(st, op, V)
CountsHold == Counts(st)
OnceHolds == Once(st)
KeptHolds == Kept(st)
=============================================================================
