-------------------------------- MODULE SdkMC -------------------------------
EXTENDS Sdk
MCFields == << [ty |-> "u8", len |-> 2], [ty |-> "bool", len |-> 0], [ty |-> "i16", len |-> 1], [ty |-> "Address", len |-> 0], [ty |-> "bool", len |-> 2] >>
MCValues(t) == {Zeros(Width[t]), [k \in 1..Width[t] |-> 1]}
\* the declarations of the templates used for conformance
AllDisjoint == \A d \in DOMAIN Decls : LET F == Decls[d] IN \A f \in 1..Len(F) : F[f].ty \in DOMAIN Width
ASSUME AllDisjoint
=============================================================================
