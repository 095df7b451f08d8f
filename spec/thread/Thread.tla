------------------------------- MODULE Thread -------------------------------
(* Thread objects and mutexes as their users see them.  run[k]: what the k-th   *)
(* started function is doing; obj[o]: the run a thread object stands for (0:     *)
(* none); own[m]: the holder of mutex m (or -1).                                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES run, obj, own
vars == <<run, obj, own>>
Runs == 1..40
Objs == 0..3
Nobody == -1
Unseen == -77        \* term does not hand the result out
Start0 == /\ run = [k \in Runs |-> [st |-> "none", ret |-> 0]]
          /\ obj = [o \in Objs |-> 0] /\ own = [m \in Objs |-> Nobody]
\* the function may already run before start returns
StartCall(o, k) == /\ obj[o] = 0 /\ run[k].st = "none" /\ run' = [run EXCEPT ![k].st = "starting"] /\ UNCHANGED <<obj, own>>
Begin(k, arg) == /\ run[k].st = "starting" /\ arg = k /\ run' = [run EXCEPT ![k].st = "running"] /\ UNCHANGED <<obj, own>>
Finish(k, r) == /\ run[k].st = "running" /\ run' = [run EXCEPT ![k] = [st |-> "finished", ret |-> r]] /\ UNCHANGED <<obj, own>>
StartRet(o, k, rc, err, refused) ==
    IF rc = 0 THEN ~refused /\ obj' = [obj EXCEPT ![o] = k] /\ UNCHANGED <<run, own>>
    ELSE /\ refused /\ rc < 0 /\ err /\ run[k].st = "starting" /\ run' = [run EXCEPT ![k].st = "failed"] /\ UNCHANGED <<obj, own>>
\* joining waits for the function and yields what it returned; with nothing to join it succeeds with NULL
JoinRet(o, rc, val, err, refused) ==
    /\ obj' = [obj EXCEPT ![o] = 0] /\ UNCHANGED <<run, own>>
    /\ IF refused THEN rc < 0 /\ err
       ELSE rc = 0 /\ IF obj[o] = 0 THEN val \in {0, Unseen} ELSE run[obj[o]].st = "finished" /\ val \in {run[obj[o]].ret, Unseen}
\* every started function ran, once, to its end
AllRan == \A k \in Runs : run[k].st \in {"none", "failed", "finished"}
Lock(m, t) == own[m] = Nobody /\ own' = [own EXCEPT ![m] = t] /\ UNCHANGED <<run, obj>>
Unlock(m, t) == own[m] = t /\ own' = [own EXCEPT ![m] = Nobody] /\ UNCHANGED <<run, obj>>
=============================================================================
