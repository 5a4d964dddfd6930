---------------------------------- MODULE Alloc ----------------------------------
(***************************************************************************)
(* C27.  Memory that synthesis needs and may not get.  A thread needs a    *)
(* plan (the transform tables and scratch of the unvoiced sound) before    *)
(* its first frame of speech; it keeps it, and no other call needs memory. *)
(* The environment may refuse any of the requests a call makes.  Then the  *)
(* call completes all the same, without the unvoiced part of the sound;    *)
(* nothing of the attempt stays behind; and the next call tries again.     *)
(* Owned counts the memory a thread holds, Whole what a complete plan      *)
(* takes; a refused call may keep nothing more than a later success needs. *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT Parts                    \* requests that make up a plan
Plans == {"none", "whole"}
\* a call of a kind (speech uses the plan, other calls do not) under a fault: 0 = none, n = the n-th request is refused,
\* Parts + 1 = every request is refused.  The result: the new plan, the sound and what it holds
Speech == "speech"
Refused(fault) == fault # 0
After(plan, kind, fault) == IF plan = "none" /\ kind = Speech /\ ~Refused(fault) THEN "whole" ELSE plan
Sound(plan, kind, fault) == IF kind = Speech /\ After(plan, kind, fault) = "none" THEN "voiced" ELSE "full"
Owned(plan) == IF plan = "whole" THEN Parts ELSE 0

(* ---- what a recorded call may look like: tried, failed = requests made and refused; held = blocks held afterwards,  *)
(* whole = blocks held by a thread whose plan is complete                                                            *)
SoundAllowed(failed) == IF failed = 0 THEN {"full"} ELSE {"full", "voiced"}
HeldOk(held, whole) == held <= whole
=============================================================================
