------------------------------ MODULE MC_Fetch ------------------------------
(* One cache folder, several calls one after the other, each of which may be   *)
(* cut at any step (crash) or meet an error it cleans up after.                *)
(* Direct: content is unpacked where readers look for it.                      *)
(* Trust: an archive left behind is used without verifying it.                 *)
EXTENDS Fetch
CONSTANTS MaxOps, Direct, Trust
VARIABLES archive, dir, work, pc, net, allowed, ops, dl, ans, cut, before, known
vars == <<archive, dir, work, pc, net, allowed, ops, dl, ans, cut, before, known>>
Init == /\ archive = "none" /\ dir = "absent" /\ work = "none" /\ pc = "idle" /\ net = TRUE /\ allowed = TRUE
        /\ ops = 0 /\ dl = 0 /\ ans = "none" /\ cut = FALSE /\ before = "absent" /\ known = "no"
Call == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
        /\ net' \in BOOLEAN /\ allowed' \in BOOLEAN
        /\ dl' = 0 /\ ans' = "none" /\ cut' = FALSE /\ before' = dir
        /\ known' = (IF ops = 0 THEN "no" ELSE After(known, IF ans = "data" THEN "data" ELSE IF ans = "cut" THEN "cut" ELSE "failed"))
        /\ work' = IF Direct THEN work ELSE "none"        \* a new call has its own work folder
        /\ pc' = "look" /\ UNCHANGED <<archive, dir>>
Look == /\ pc = "look"
        /\ IF dir # "absent" THEN pc' = "load" /\ UNCHANGED <<ans, dir>>
           ELSE IF ~allowed THEN pc' = "idle" /\ ans' = "error" /\ UNCHANGED dir
           ELSE /\ pc' = IF archive = "whole" \/ (Trust /\ archive = "torn") THEN "unpack" ELSE "download"
                /\ dir' = (IF Direct THEN "torn" ELSE dir) /\ UNCHANGED ans
        /\ UNCHANGED <<archive, work, net, allowed, ops, dl, cut, before, known>>
Download == /\ pc = "download" /\ dl' = dl + 1
            /\ IF net THEN \E a \in {"torn", "whole"} : archive' = a /\ pc' = (IF a = "whole" THEN "unpack" ELSE "torn") /\ UNCHANGED ans
               ELSE archive' = archive /\ pc' = "idle" /\ ans' = "error"
            /\ UNCHANGED <<dir, work, net, allowed, ops, cut, before, known>>
\* the rest of a transfer
Rest == /\ pc = "torn" /\ archive' = "whole" /\ pc' = "unpack" /\ UNCHANGED <<dir, work, net, allowed, ops, dl, ans, cut, before, known>>
Unpack == /\ pc = "unpack"
          /\ IF archive = "torn" THEN pc' = "idle" /\ ans' = "error" /\ UNCHANGED <<dir, work>>
             ELSE IF Direct THEN \/ dir' = "torn" /\ pc' = "unpack2" /\ UNCHANGED <<work, ans>>
             ELSE work' = "torn" /\ pc' = "unpack2" /\ UNCHANGED <<dir, ans>>
          /\ UNCHANGED <<archive, net, allowed, ops, dl, cut, before, known>>
Unpack2 == /\ pc = "unpack2"
           /\ IF Direct THEN dir' = "whole" /\ pc' = "remove" /\ UNCHANGED work ELSE work' = "whole" /\ pc' = "remove" /\ UNCHANGED dir
           /\ UNCHANGED <<archive, net, allowed, ops, dl, ans, cut, before, known>>
Remove == /\ pc = "remove" /\ archive' = "none" /\ pc' = (IF Direct THEN "load" ELSE "publish")
          /\ UNCHANGED <<dir, work, net, allowed, ops, dl, ans, cut, before, known>>
Publish == /\ pc = "publish" /\ dir' = work /\ work' = "none" /\ pc' = "load"
           /\ UNCHANGED <<archive, net, allowed, ops, dl, ans, cut, before, known>>
Load == /\ pc = "load" /\ ans' = (IF dir = "whole" THEN "data" ELSE "error") /\ pc' = "idle"
        /\ UNCHANGED <<archive, dir, work, net, allowed, ops, dl, cut, before, known>>
Cut == /\ pc # "idle" /\ pc' = "idle" /\ cut' = TRUE /\ ans' = "cut"
       /\ work' \in {work, "none"}       \* a crash leaves the work folder, an error removes it
       /\ UNCHANGED <<archive, dir, net, allowed, ops, dl, before, known>>
Next == Call \/ Look \/ Download \/ Rest \/ Unpack \/ Unpack2 \/ Remove \/ Publish \/ Load \/ Cut
Spec == Init /\ [][Next]_vars
Done == pc = "idle" /\ ops > 0 /\ ~cut
Recovers == Done /\ net /\ allowed => ans = "data"
CacheEnough == Done /\ before = "whole" => ans = "data" /\ dl = 0
AtMostOneDownload == dl <= 1
NoSilentDownload == ~allowed => dl = 0
OnlyWholeAnswers == ans = "data" => dir = "whole"
CacheKept == before = "whole" => dir = "whole"
\* the summary used to judge recorded histories is sound for the machine
Summary == Done => /\ (ans = "error" => MayFail(known, net, allowed))
                   /\ (ans = "data" => MayAnswer(known, net, allowed))
                   /\ dl <= MaxDownloads(known, allowed)
                   /\ (known = "yes" => before = "whole") /\ (known = "no" => before = "absent")
=============================================================================
