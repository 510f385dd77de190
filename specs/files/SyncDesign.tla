----------------------------- MODULE SyncDesign -----------------------------
(* Synchronising a file and its folder, on a disk that may lose what was   *)
(* not flushed: a crash at any point, any operation may fail.              *)
(* data/entry: durable?  Variants are mistakes TLC must refute.            *)
EXTENDS Integers
CONSTANT Variant
VARIABLES pc, data, entry, err, ferr, open, ret
vars == <<pc, data, entry, err, ferr, open, ret>>
First == IF Variant = "folder_first" THEN "dopen" ELSE "fopen"
Init == pc = First /\ data = FALSE /\ entry = FALSE /\ err = 0 /\ ferr = 0 /\ open = 0 /\ ret = 1
AfterFile == IF Variant = "folder_first" \/ Variant = "no_folder" THEN "end" ELSE "dopen"
AfterDir == IF Variant = "folder_first" THEN "fopen" ELSE "end"
FOpen == pc = "fopen" /\ UNCHANGED <<data, entry, ret>>
         /\ \/ pc' = "fsync" /\ open' = open + 1 /\ UNCHANGED <<err, ferr>>
            \/ pc' = AfterFile /\ err' = (IF err = 0 THEN -1 ELSE err) /\ ferr' = -1 /\ UNCHANGED open
FSync == pc = "fsync" /\ UNCHANGED <<entry, ret>>
         /\ \/ data' = (Variant # "no_flush") /\ pc' = AfterFile /\ open' = open - 1 /\ UNCHANGED <<err, ferr>>
            \/ pc' = AfterFile /\ err' = (IF err = 0 THEN -2 ELSE err) /\ ferr' = -2 /\ open' = (IF Variant = "leak" THEN open ELSE open - 1) /\ UNCHANGED data
DOpen == pc = "dopen" /\ UNCHANGED <<data, entry, ret, ferr>>
         /\ \/ pc' = "dsync" /\ open' = open + 1 /\ err' = (IF Variant = "masked" THEN 0 ELSE err)
            \/ pc' = AfterDir /\ err' = (IF err = 0 THEN -3 ELSE err) /\ UNCHANGED open
DSync == pc = "dsync" /\ UNCHANGED <<data, ret, ferr>> /\ open' = open - 1
         /\ \/ entry' = TRUE /\ pc' = AfterDir /\ UNCHANGED err
            \/ pc' = AfterDir /\ err' = (IF err = 0 THEN -4 ELSE err) /\ UNCHANGED entry
End == pc = "end" /\ pc' = "done" /\ ret' = err /\ UNCHANGED <<data, entry, err, ferr, open>>
Next == FOpen \/ FSync \/ DOpen \/ DSync \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Durable == ret = 0 => data /\ entry             \* success survives a crash
InOrder == ferr = 0 => (entry => data)   \* at every moment: no entry without its data
Failed == (pc = "done" /\ ferr # 0) => ret < 0
NoLeak == pc = "done" => open = 0
Ends == <>(pc = "done")
=============================================================================
