----------------------------- MODULE ArchiveGen -----------------------------
(* Scripts: some writes, a cut, some reads, of primitive sizes.               *)
EXTENDS Archive, TLC, IOUtils, CSV
CONSTANTS Sizes, MaxW, MaxR
VARIABLES ws, cut, rs
gvars == <<buf, pos, failed, reading, ws, cut, rs>>
Bytes(sz) == [i \in 1..sz |-> 1]
GInit == Init /\ ws = <<>> /\ cut = 0 /\ rs = <<>>
GWrite == \E sz \in Sizes : Len(ws) < MaxW /\ Write(Bytes(sz)) /\ ws' = Append(ws, sz) /\ UNCHANGED <<cut, rs>>
GOpen == \E n \in 0..Len(buf) : Open(n) /\ cut' = n /\ UNCHANGED <<ws, rs>>
GRead == \E sz \in Sizes : /\ Len(rs) < MaxR /\ Read(sz) /\ rs' = Append(rs, sz) /\ UNCHANGED <<ws, cut>>
                           /\ (Len(rs') = MaxR => CSVWrite("%1$s", <<ToString(<<Len(ws)>> \o ws \o <<cut>> \o rs')>>, IOEnv.GEN_FILE))
GSpec == GInit /\ [][GWrite \/ GOpen \/ GRead]_gvars
Sticky == [][failed => failed' \/ ~reading]_gvars
=============================================================================
