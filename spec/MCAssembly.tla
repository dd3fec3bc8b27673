----------------------------- MODULE MCAssembly -----------------------------
EXTENDS Assembly
CONSTANT MaxLen
In(op, d, a, b, sh, sg, imm, wb, wbi) ==
  [op |-> op, d |-> d, a |-> a, b |-> b, sh |-> sh, sg |-> sg, imm |-> imm, wb |-> wb, wbi |-> wbi]
Changes == {In("set", "r0", "r0", "", 0, 1, 8, "", 0), In("set", "r0", "r0", "", 0, 1, -1, "", 0),
            In("set", "r1", "r1", "", 0, 1, 8, "", 0), In("set", "r0", "r0", "r2", 0, 1, 0, "", 0),
            In("set", "r0", "r1", "", 0, 1, 0, "", 0), In("set", "r1", "r2", "r0", 3, 1, 0, "", 0),
            In("odd", "r0", "", "", 0, 1, 0, "", 0)}
Accesses == {In("st", "", "r1", "r0", 3, 1, 0, "", 0), In("st", "", "r0", "", 0, 1, 16, "", 0),
             In("ld", "", "r1", "", 0, 1, 0, "", 0), In("ld", "", "r0", "r1", 0, 1, 0, "", 0),
             In("ld", "", "r2", "r0", 2, 1, 0, "", 0), In("rw", "", "r0", "", 0, 1, 0, "", 0)}
Wb == {In("st", "", "r1", "", 0, 1, 0, "post", 16), In("ld", "", "r0", "", 0, 1, 0, "pre", 8)}
Instrs == Changes \cup Accesses
Small == UNION {[1..n -> Instrs] : n \in 1..MaxLen} \cup {<<x, y>> : x \in Wb, y \in Instrs}
          \cup {<<x, y>> : x \in Instrs, y \in Wb} \cup {<<x, y>> : x \in Wb, y \in Wb}
=============================================================================
