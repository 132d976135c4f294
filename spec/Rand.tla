-------------------------------- MODULE Rand --------------------------------
(***************************************************************************)
(* Sampled resolution of nondeterministic choices.  A key is an integer;   *)
(* Hash derives new keys, Pick selects an element of 1..n.  Evaluated by   *)
(* java/Rand.java; any function of these types would be correct, only the  *)
(* selection of explored behaviours depends on it.                         *)
(***************************************************************************)
EXTENDS Integers
Hash(k, i) == CHOOSE h \in Nat : TRUE
Pick(k, n) == CHOOSE h \in 1..n : TRUE
=============================================================================
