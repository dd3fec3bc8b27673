------------------------------ MODULE MachineStore ------------------------------
(* Machine descriptions: files that are loaded, edited, changed in memory,       *)
(* written out again, and asked for cache simulators. Every answer depends on    *)
(* what the file held when it was loaded and on changes made through the very    *)
(* same instance, on nothing else.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Paths, Slots, MaxOps, CoreCounts, Kinds, Emit

Level(name, sets, ways, group) == [name |-> name, sets |-> sets, ways |-> ways, group |-> group]
(* what descriptions hold: number of cores sharing each cache, its shape, a      *)
(* clock, and the measured bandwidths of the last cache per number of cores      *)
Contents == <<
  [id |-> 1, clock |-> 2, numa |-> 4, bw |-> <<10, 20, 30, 40, 50, 60, 70, 80>>,
   levels |-> <<Level("L1", 4, 2, 1), Level("L2", 24, 2, 2), Level("L3", 240, 4, 8)>>],
  [id |-> 2, clock |-> 3, numa |-> 2, bw |-> <<11, 19, 18, 17>>,
   levels |-> <<Level("L1", 8, 1, 1), Level("L2", 60, 3, 4)>>],
  [id |-> 3, clock |-> 2, numa |-> 8, bw |-> <<7, 9, 13, 12, 30, 31, 32, 33>>,
   levels |-> <<Level("L1", 4, 2, 1), Level("L2", 24, 2, 1), Level("L3", 240, 4, 4)>>]>>

Min(a, b) == IF a < b THEN a ELSE b
(* a cache shared by several cores is split among those in use *)
Share(c, lv, cores) == IF lv.group = 1 THEN lv.sets
                       ELSE lv.sets \div Min(cores, Min(lv.group, c.numa))
Hierarchy(c, cores) ==
  [i \in 1..Len(c.levels) |-> <<c.levels[i].name, Share(c, c.levels[i], cores), c.levels[i].ways>>]
(* bandwidth with as many cores of the domain as share the last cache *)
BestBw(c) == LET n == Min(c.levels[Len(c.levels)].group, c.numa)
                 S == {c.bw[i] : i \in 1..Min(n, Len(c.bw))}
             IN CHOOSE x \in S : \A y \in S : y <= x

None == [id |-> 0]
VARIABLES disk, inst, hist
vars == <<disk, inst, hist>>
Init == /\ disk = [p \in Paths |-> Contents[IF p = 1 THEN 1 ELSE 2]]
        /\ inst = [s \in Slots |-> None]
        /\ hist = <<>>
Held(c) == IF c.id = 0 THEN [id |-> 0] ELSE [id |-> c.id, content |-> c, best |-> BestBw(c)]
Step(r) == hist' = Append(hist, r @@ [held |-> [s \in Slots |-> Held(inst'[s])]])
Load(s, p) == /\ inst' = [inst EXCEPT ![s] = disk[p]] /\ UNCHANGED disk
              /\ Step([op |-> "load", s |-> s, p |-> p])
(* from data in memory, which the instance must not keep sharing *)
Direct(s, k) == /\ inst' = [inst EXCEPT ![s] = Contents[k]] /\ UNCHANGED disk
                /\ Step([op |-> "direct", s |-> s, k |-> k])
Edit(p, k) == /\ disk[p] # Contents[k] /\ disk' = [disk EXCEPT ![p] = Contents[k]] /\ UNCHANGED inst
              /\ Step([op |-> "edit", p |-> p, content |-> Contents[k]])
Changed(c) == [c EXCEPT !.id = c.id + 10, !.clock = c.clock + 5, !.levels[Len(c.levels)].ways = @ + 1,
               !.bw[1] = @ + 90]
Change(s) == /\ inst[s].id \in 1..9 /\ inst' = [inst EXCEPT ![s] = Changed(inst[s])] /\ UNCHANGED disk
             /\ Step([op |-> "change", s |-> s])
Dump(s, p) == /\ inst[s].id # 0 /\ disk' = [disk EXCEPT ![p] = inst[s]] /\ UNCHANGED inst
              /\ Step([op |-> "dump", s |-> s, p |-> p])
Sim(s, n) == /\ inst[s].id # 0 /\ UNCHANGED <<disk, inst>>
             /\ Step([op |-> "sim", s |-> s, cores |-> n, want |-> Hierarchy(inst[s], n)])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E s \in Slots, p \in Paths : "load" \in Kinds /\ Load(s, p)
           \/ \E s \in Slots, k \in {2, 3} : "direct" \in Kinds /\ Direct(s, k)
           \/ \E p \in Paths, k \in 1..Len(Contents) : "edit" \in Kinds /\ Edit(p, k)
           \/ \E s \in Slots : "change" \in Kinds /\ Change(s)
           \/ \E s \in Slots, p \in Paths : "dump" \in Kinds /\ Dump(s, p)
           \/ \E s \in Slots, n \in CoreCounts : "sim" \in Kinds /\ Sim(s, n)
        /\ IF Emit /\ Len(hist') = MaxOps THEN PrintT(ToJson([hist |-> hist'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

Touched(r) == IF "s" \in DOMAIN r THEN {r.s} ELSE {}
(* an operation affects no instance but the one it names *)
Isolated == [][\A s \in Slots : s \in Touched(hist'[Len(hist')]) \/ inst'[s] = inst[s]]_vars
(* questions change nothing *)
QueriesPure == [][hist'[Len(hist')].op = "sim" => inst' = inst /\ disk' = disk]_vars
Known(c) == c.id = 0 \/ c \in {Contents[k] : k \in 1..Len(Contents)}
            \/ c \in {Changed(Contents[k]) : k \in 1..Len(Contents)}
Sane == (\A s \in Slots : Known(inst[s])) /\ (\A p \in Paths : Known(disk[p]))
(* more cores never enlarge the share, and no share exceeds the cache *)
Shares == \A k \in 1..Len(Contents), n \in CoreCounts, m \in CoreCounts :
   n <= m => \A i \in 1..Len(Contents[k].levels) :
      /\ Share(Contents[k], Contents[k].levels[i], m) <= Share(Contents[k], Contents[k].levels[i], n)
      /\ Share(Contents[k], Contents[k].levels[i], 1) = Contents[k].levels[i].sets
      /\ Share(Contents[k], Contents[k].levels[i], m) > 0

(* supported versions: numbers compare by component, development versions come   *)
(* before the release they lead to (dev = 99 stands for the release)             *)
Less(a, b) == \E i \in 1..4 : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Supported(v, low, high) == ~Less(v, low) /\ ~Less(high, v)
=============================================================================
