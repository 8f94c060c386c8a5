---------------------------- MODULE DownloadCache ---------------------------
(* The dataset cache: a call uses the cached file if there is one, otherwise  *)
(* receives the dataset chunk by chunk in a file of its own, renames it to    *)
(* the cached name when it is complete, and reads the cached file; the folder *)
(* of the cache is made on the way (calls are processes or threads).  At any  *)
(* point a transfer can break off or end early, the call can be interrupted,  *)
(* or the process be killed.  Calls overlap (up to MaxActive of them).        *)
(* Files are inodes (sets of chunks); names refer to inodes (0: no file).     *)
(* Histories are printed (Emit) and replayed on the real code.                *)
EXTENDS Base, Json
CONSTANTS Calls, Chunks, MaxActive, Faults, Bug, Emit
VARIABLES names, heap, dir, pr, hist
vars == <<names, heap, dir, pr, hist>>
Full == 1..Chunks
Tmp(p) == CASE Bug = "inplace" -> "final" [] Bug = "sharedtmp" -> "tmp" [] OTHER -> "tmp" \o ToString(p)
Init == /\ names = [x \in {"final"} \cup {Tmp(p) : p \in Calls} |-> 0]
        /\ heap = <<>> /\ dir = FALSE
        /\ pr = [p \in Calls |-> [at |-> "new", k |-> 0, ino |-> 0, res |-> "", hurt |-> FALSE]]
        /\ hist = <<>>
Log(p, what) == hist' = IF Emit THEN Append(hist, <<p, what>>) ELSE hist
Active == {p \in Calls : pr[p].at \notin {"new", "end"}}
Start(p) == /\ pr[p].at = "new" /\ Cardinality(Active) < MaxActive
            /\ \A o \in Calls : o < p => pr[o].at # "new"
            /\ pr' = [pr EXCEPT ![p].at = IF names["final"] # 0 THEN "read" ELSE "dir"]
            /\ Log(p, "start") /\ UNCHANGED <<names, heap, dir>>
\* the folder: another call may make it between this one's look and its own attempt
Look(p) == /\ pr[p].at = "dir"
           /\ pr' = [pr EXCEPT ![p].at = IF dir THEN "open" ELSE "mkdir"]
           /\ UNCHANGED <<names, heap, dir, hist>>
Mkdir(p) == /\ pr[p].at = "mkdir" /\ dir' = TRUE
            /\ pr' = IF dir /\ Bug = "mkdirrace" THEN [pr EXCEPT ![p].at = "end", ![p].res = "error"]
                     ELSE [pr EXCEPT ![p].at = "open"]
            /\ UNCHANGED <<names, heap, hist>>
Open(p) == /\ pr[p].at = "open"
           /\ IF names[Tmp(p)] # 0
              THEN /\ heap' = IF Bug = "resume" THEN heap ELSE [heap EXCEPT ![names[Tmp(p)]] = {}]
                   /\ pr' = [pr EXCEPT ![p].at = "recv", ![p].ino = names[Tmp(p)]]
                   /\ UNCHANGED names
              ELSE /\ heap' = Append(heap, {})
                   /\ names' = [names EXCEPT ![Tmp(p)] = Len(heap) + 1]
                   /\ pr' = [pr EXCEPT ![p].at = "recv", ![p].ino = Len(heap) + 1]
           /\ UNCHANGED <<dir, hist>>
Recv(p) == /\ pr[p].at = "recv" /\ pr[p].k < Chunks
           /\ heap' = [heap EXCEPT ![pr[p].ino] = @ \cup {pr[p].k + 1}]
           /\ pr' = [pr EXCEPT ![p].k = @ + 1]
           /\ Log(p, "recv") /\ UNCHANGED <<names, dir>>
Finish(p) == /\ pr[p].at = "recv" /\ pr[p].k = Chunks
             /\ IF names[Tmp(p)] = 0
                THEN pr' = [pr EXCEPT ![p].at = "end", ![p].res = "error"] /\ UNCHANGED names
                ELSE /\ names' = [names EXCEPT ![Tmp(p)] = 0, !["final"] = names[Tmp(p)]]
                     /\ pr' = [pr EXCEPT ![p].at = "read"]
             /\ UNCHANGED <<heap, dir, hist>>
Read(p) == /\ pr[p].at = "read"
           /\ pr' = [pr EXCEPT ![p].at = "end", ![p].res = IF heap[names["final"]] = Full THEN "ok" ELSE "bad"]
           /\ UNCHANGED <<names, heap, dir, hist>>
\* the transfer fails with an exception (reset, http error, interrupt, disk full): clean up
Break(p, f) ==
  /\ pr[p].at = "recv" /\ pr[p].k < Chunks
  /\ names' = IF Bug = "replaceanyway" THEN [names EXCEPT ![Tmp(p)] = 0, !["final"] = names[Tmp(p)]]
              ELSE IF Bug = "inplace" THEN names
              ELSE [names EXCEPT ![Tmp(p)] = 0]
  /\ pr' = [pr EXCEPT ![p].at = "end", ![p].res = "error", ![p].hurt = TRUE]
  /\ Log(p, f) /\ UNCHANGED <<heap, dir>>
\* the stream ends early: noticed by its announced length
Short(p) ==
  /\ pr[p].at = "recv" /\ pr[p].k < Chunks
  /\ IF Bug = "nolength"
     THEN /\ names' = [names EXCEPT ![Tmp(p)] = 0, !["final"] = names[Tmp(p)]]
          /\ pr' = [pr EXCEPT ![p].at = "read", ![p].hurt = TRUE]
     ELSE /\ names' = IF Bug = "inplace" THEN names ELSE [names EXCEPT ![Tmp(p)] = 0]
          /\ pr' = [pr EXCEPT ![p].at = "end", ![p].res = "error", ![p].hurt = TRUE]
  /\ Log(p, "short") /\ UNCHANGED <<heap, dir>>
\* killed at any point: the files stay as they are
Kill(p) == /\ pr[p].at \notin {"new", "end"} /\ (Emit => pr[p].at = "recv" /\ pr[p].k < Chunks)
           /\ pr' = [pr EXCEPT ![p].at = "end", ![p].res = "killed", ![p].hurt = TRUE]
           /\ Log(p, "kill") /\ UNCHANGED <<names, heap, dir>>
LastCall == CHOOSE p \in Calls : \A o \in Calls : o <= p
Next == \E p \in Calls :
          \/ Start(p) \/ Look(p) \/ Mkdir(p) \/ Open(p) \/ Recv(p) \/ Finish(p) \/ Read(p)
          \/ (p # LastCall \/ ~Emit) /\ (Kill(p) \/ Short(p) \/ \E f \in Faults : Break(p, f))
\* no incomplete file under the cached name, whatever happens
WholeOrAbsent == names["final"] # 0 => heap[names["final"]] = Full
RightResults == \A p \in Calls : pr[p].res # "bad"
\* a call that nothing happens to succeeds
HealthyCallsSucceed == \A p \in Calls : pr[p].res \in {"error", "killed"} => pr[p].hurt
Done == \A p \in Calls : pr[p].at = "end"
Out == IF Emit /\ Done THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
