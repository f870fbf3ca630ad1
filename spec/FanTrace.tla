---------------------------- MODULE FanTrace ----------------------------
EXTENDS Fan, Json, TLC, IOUtils
Trie == ndJsonDeserialize(IOEnv.TRIE)
VARIABLES node, S
TInit == node = 1 /\ S = {Init0}
TNext == /\ S # {}
         /\ \E i \in 1..Len(Trie[node].k) :
              LET c == Trie[node].k[i]
              IN /\ node' = c
                 /\ S' = StepSet(S, Trie[c])
                 /\ (S' # {} \/ PrintT(<<"REJECT", c>>))
TSpec == TInit /\ [][TNext]_<<node, S>>
=============================================================================
