-------------------------------- MODULE RefGen -------------------------------
(* Writes the 81 reference inputs. *)
EXTENDS Published, Json, IOUtils
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..81 |-> [m |-> Reference(i)[1], s |-> Reference(i)[2]]])
NoNext == UNCHANGED << pubFn, pubIdx >>
=============================================================================
