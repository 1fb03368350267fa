------------------------------- MODULE Export -------------------------------
(* Writes the tables the conformance driver needs: attributes of every kind *)
EXTENDS Models, Json, IOUtils
VARIABLE x
Kinds == DOMAIN AttrTab
Row(at) == [a |-> at.a, w |-> at.w, sp |-> at.sp, dct |-> at.dct, en |-> EnumOf(at.a),
            c |-> [i \in DOMAIN at.alts |-> at.alts[i].c],
            x |-> [i \in DOMAIN at.alts |-> at.alts[i].x],
            id |-> [i \in DOMAIN at.alts |-> at.alts[i].id]]
Tab == [k \in Kinds |-> [i \in DOMAIN AttrTab[k] |-> Row(AttrTab[k][i])]]
ASSUME JsonSerialize(IOEnv.OUT, [attrs |-> Tab, names |-> PluginNames])
Init == x = 0
Next == UNCHANGED x
=============================================================================
