---------------------------- MODULE DatasetNames ----------------------------
(* The cache across datasets: calls name different datasets one after        *)
(* another; each dataset has a file of its own.  A call of a cached dataset   *)
(* needs no server; any other call downloads, and fails if the transfer       *)
(* does.  (How one download fails is DownloadCache's business.)               *)
EXTENDS Base, Json
CONSTANTS Names, Calls, Modes, Bug, Emit
VARIABLES disk, n, out, hist
vars == <<disk, n, out, hist>>
\* disk: file name -> dataset it holds ("" : no file)
File(d) == IF Bug = "sharedfile" THEN "all" ELSE d
Found(d) == IF Bug = "anyfile" THEN {x \in DOMAIN disk : disk[x] # ""} ELSE {File(d)} \cap {x \in DOMAIN disk : disk[x] # ""}
Init == disk = [x \in Names \cup {"all"} |-> ""] /\ n = 0 /\ out = [d |-> "", res |-> ""] /\ hist = <<>>
Call(d, m) ==
  /\ n < Calls /\ n' = n + 1
  /\ hist' = Append(hist, <<d, m>>)
  /\ IF Found(d) # {}
     THEN /\ out' = [d |-> d, res |-> disk[CHOOSE x \in Found(d) : TRUE]]
          /\ UNCHANGED disk
     ELSE IF m = "auto"
     THEN disk' = [disk EXCEPT ![File(d)] = d] /\ out' = [d |-> d, res |-> d]
     ELSE out' = [d |-> d, res |-> "error"] /\ UNCHANGED disk
Next == \E d \in Names, m \in Modes : Call(d, m)
RightDataset == out.res \in {"", "error", out.d}
\* a failing call of one dataset loses none of the others, and a success stays
NothingLost == \A k \in 1..Len(hist) : hist[k][2] = "auto" => disk[File(hist[k][1])] # ""
Out == IF Emit /\ n = Calls THEN PrintT(<<"CASE", ToJson(hist)>>) ELSE TRUE
=============================================================================
