----------------------------- MODULE Ownership -----------------------------
(* Who owns which block of memory while a filter lives.  A filter holds a     *)
(* tree reference, one tree node per boundary, one slot array per store (its  *)
(* descriptor lives in the node and is copied freely), and, while keys are    *)
(* being streamed in, the buffered keys.  Every operation is a sequence of    *)
(* takings, readings and releases of blocks; a block is never named again     *)
(* once released, so touching or releasing it twice shows in `sound'.         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Bounds, MaxBlock, MaxBuf

NONE == 0
VARIABLES heap,     \* [live, next, sound]
          phase,    \* "none", "streaming", "open"
          tref,     \* the tree reference
          tree,     \* boundary -> [node, slots]
          buf,      \* buffered keys: <<left, others...>>
          stale     \* position -> a key of an earlier batch, until it is overwritten
vars == <<heap, phase, tref, tree, buf, stale>>

Fresh(h) == h.next
Take(h) == [h EXCEPT !.live = @ \cup {h.next}, !.next = @ + 1]
Give(h, b) == [h EXCEPT !.live = @ \ {b}, !.sound = @ /\ b \in h.live]
Touch(h, b) == [h EXCEPT !.sound = @ /\ b \in h.live]
RECURSIVE GiveAll(_, _)
GiveAll(h, S) == IF S = {} THEN h ELSE LET b == CHOOSE x \in S : TRUE IN GiveAll(Give(h, b), S \ {b})

(* Storing a descriptor under a boundary takes a new node and releases the    *)
(* old one; the key handed over may itself lie in the old node, so it is read *)
(* first.  `from' is the block the key lies in, NONE if it is the caller's.   *)
PutNode(s, b, slots, from) ==
    LET h1 == IF from = NONE THEN s.h ELSE Touch(s.h, from)
        n  == Fresh(h1)
        h2 == Take(h1)
        h3 == IF b \in DOMAIN s.t THEN Give(h2, s.t[b].node) ELSE h2
    IN [h |-> h3, t |-> [x \in (DOMAIN s.t) \cup {b} |-> IF x = b THEN [node |-> n, slots |-> slots] ELSE s.t[x]]]
DelNode(s, b, from) ==
    LET h1 == IF from = NONE THEN s.h ELSE Touch(s.h, from)
    IN [h |-> Give(h1, s.t[b].node), t |-> [x \in (DOMAIN s.t) \ {b} |-> s.t[x]]]

Below(b) == {x \in DOMAIN tree : x < b}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Min(S) == CHOOSE x \in S : \A y \in S : y >= x
Prev(b) == Max(Below(b))
Lo == Min(Bounds)
Hi == Max(Bounds)

Init == /\ heap = [live |-> {}, next |-> 1, sound |-> TRUE]
        /\ phase = "none" /\ tref = NONE /\ tree = <<>> /\ buf = <<>> /\ stale = <<>>

(* A fresh filter that is to be streamed into *)
Create == /\ phase = "none"
          /\ tref' = Fresh(heap) /\ heap' = Take(heap)
          /\ phase' = "streaming" /\ tree' = <<>> /\ buf' = <<>> /\ stale' = <<>>

Stream == /\ phase = "streaming" /\ Len(buf) < MaxBuf
          /\ buf' = Append(buf, Fresh(heap))
          /\ LET i == Len(buf) + 1 IN
             /\ heap' = IF i \in DOMAIN stale THEN Give(Take(heap), stale[i]) ELSE Take(heap)
             /\ stale' = [j \in (DOMAIN stale) \ {i} |-> stale[j]]
          /\ UNCHANGED <<phase, tref, tree>>

Last(s) == s[Len(s)]
(* The buffer is full: the next key closes a store.  The left key becomes the *)
(* boundary of it and is released; the closing key is the next left key.  The *)
(* others stay in the buffer until overwritten or finished.                   *)
Flush(b) == /\ phase = "streaming" /\ Len(buf) = MaxBuf /\ MaxBuf > 1
            /\ b \notin DOMAIN tree /\ b > Lo /\ b < Hi /\ \A x \in DOMAIN tree : x < b
            /\ LET right == Fresh(heap)
                   h1 == Touch(Touch(Take(heap), right), buf[1])
                   st == Fresh(h1)
                   s  == PutNode([h |-> Take(h1), t |-> tree], b, st, buf[1])
               IN heap' = Give(s.h, buf[1]) /\ tree' = s.t /\ buf' = <<right>>
            /\ stale' = [i \in 2..Len(buf) |-> buf[i]]
            /\ UNCHANGED <<phase, tref>>

(* The last boundary, and the least and greatest key as sentinels. *)
RECURSIVE PutFresh(_, _)
PutFresh(s, S) == IF S = {} THEN s
                  ELSE LET b == CHOOSE x \in S : TRUE
                           st == Fresh(s.h)
                       IN PutFresh(IF b \in DOMAIN s.t THEN s ELSE PutNode([s EXCEPT !.h = Take(@)], b, st, NONE), S \ {b})
Finish(b) == /\ phase = "streaming" /\ Len(buf) > 0
             /\ b > Lo /\ b < Hi /\ \A x \in DOMAIN tree : x < b
             /\ LET s == PutFresh([h |-> heap, t |-> tree], {b, Lo, Hi})
                IN /\ heap' = GiveAll(s.h, {buf[i] : i \in DOMAIN buf} \cup {stale[i] : i \in DOMAIN stale})
                   /\ tree' = s.t
             /\ buf' = <<>> /\ stale' = <<>> /\ phase' = "open" /\ UNCHANGED tref

(* A store gets a larger or smaller array; its descriptor is changed in place *)
Resize(b) == /\ phase = "open" /\ b \in DOMAIN tree
             /\ LET n == tree[b].node
                    st == Fresh(heap)
                    h1 == Touch(Touch(Take(heap), n), tree[b].slots)
                IN /\ heap' = Touch(Give(h1, tree[b].slots), n)
                   /\ tree' = [tree EXCEPT ![b].slots = st]
             /\ UNCHANGED <<phase, tref, buf, stale>>

(* b becomes a boundary: the store before it is split in two.  The previous   *)
(* boundary's key is read from its node; the array is released at the end.    *)
Split(b) == /\ phase = "open" /\ b \notin DOMAIN tree /\ Below(b) # {} /\ b < Hi
            /\ LET p == Prev(b)
                   n == tree[p].node
                   old == tree[p].slots
                   h1 == Touch(Touch(heap, n), old)
                   lt == Fresh(h1)
                   h2 == Take(h1)
                   gt == Fresh(h2)
                   h3 == Touch(Take(h2), n)          \* the address to release is read while the node stands
                   s1 == PutNode([h |-> h3, t |-> tree], p, lt, n)
                   s2 == PutNode(s1, b, gt, NONE)
               IN heap' = Give(s2.h, old) /\ tree' = s2.t
            /\ UNCHANGED <<phase, tref, buf, stale>>

(* b stops being a boundary: its store is merged into the one before it.      *)
Merge(b) == /\ phase = "open" /\ b \in DOMAIN tree /\ b # Lo /\ b # Hi
            /\ LET p == Prev(b)
                   nl == tree[p].node
                   nm == tree[b].node
                   h1 == Touch(Touch(Touch(Touch(heap, nl), nm), tree[p].slots), tree[b].slots)
                   st == Fresh(h1)
                   h2 == Touch(Take(h1), nl)         \* flags of the left store
                   h3 == Give(Give(h2, tree[p].slots), tree[b].slots)
                   s1 == PutNode([h |-> h3, t |-> tree], p, st, nl)
                   s2 == DelNode(s1, b, nm)
               IN heap' = s2.h /\ tree' = s2.t
            /\ UNCHANGED <<phase, tref, buf, stale>>

(* A second filter made from the bytes replaces the first. *)
RECURSIVE Copy(_, _)
Copy(s, S) == IF S = {} THEN s
              ELSE LET b == CHOOSE x \in S : TRUE
                       st == Fresh(s.h)
                   IN Copy(PutNode([s EXCEPT !.h = Take(@)], b, st, NONE), S \ {b})
Everything == {tref} \cup {tree[b].node : b \in DOMAIN tree} \cup {tree[b].slots : b \in DOMAIN tree}
              \cup {buf[i] : i \in DOMAIN buf} \cup {stale[i] : i \in DOMAIN stale}
Reload == /\ phase = "open"
          /\ LET r == Fresh(heap)
                 s == Copy([h |-> Take(heap), t |-> <<>>], DOMAIN tree)
             IN heap' = GiveAll(s.h, Everything) /\ tree' = s.t /\ tref' = r
          /\ UNCHANGED <<phase, buf, stale>>

Read == /\ phase = "open"
        /\ \E b \in DOMAIN tree : heap' = Touch(Touch(heap, tree[b].node), tree[b].slots)
        /\ UNCHANGED <<phase, tref, tree, buf, stale>>

Destroy == /\ phase # "none"
           /\ heap' = GiveAll(heap, Everything)
           /\ phase' = "none" /\ tref' = NONE /\ tree' = <<>> /\ buf' = <<>> /\ stale' = <<>>

Next == Create \/ Stream \/ Reload \/ Read \/ Destroy
        \/ \E b \in Bounds : Flush(b) \/ Finish(b) \/ Resize(b) \/ Split(b) \/ Merge(b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Sound == heap.sound                                     \* nothing touched or released after its release
Owned == heap.live = IF phase = "none" THEN {} ELSE Everything    \* nothing lost, nothing dangling
Distinct == phase # "none" =>                           \* no block is owned twice
    Cardinality(Everything) = 1 + 2 * Cardinality(DOMAIN tree) + Len(buf) + Cardinality(DOMAIN stale)
Bounded == heap.next <= MaxBlock
=============================================================================
