------------------------------- MODULE MCPy -------------------------------
(***************************************************************************)
(* The bindings' process-wide state: the interpreter lock, the mutex that  *)
(* serialises objective calls, the registry of constraints, and the        *)
(* thread-local id of the problem being solved, with optimisations running *)
(* in several Python threads, each call of a Python function possibly      *)
(* raising or running an optimisation of its own. reg[p]: the constraints  *)
(* registered for problem p; cons[p]: the problem's attribute, which may   *)
(* be replaced while it is not being solved. fr[t]: the optimisations the  *)
(* thread is in, innermost last.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Problems, Versions, MaxRuns, MaxCalls, MaxDepth,
          HoldWhileCalling,   \* the registry stays locked during a constraint call (a defect)
          ForgetOuter,        \* the outer problem's id is not restored (a defect)
          NotReentrant        \* a nested objective waits for the mutex of its own thread (a defect)
VARIABLES pc, gil, reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave
vars == <<pc, gil, reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
None == 0
Init == /\ pc = [t \in Threads |-> "python"] /\ gil = None /\ reglock = None /\ callmutex = None /\ poisoned = FALSE
        /\ reg = [p \in Problems |-> 0] /\ cur = [t \in Threads |-> 0] /\ cons = [p \in Problems |-> 1]
        /\ fr = [t \in Threads |-> <<>>] /\ runs = [t \in Threads |-> 0]
        /\ seen = [t \in Threads |-> 0] /\ gave = [t \in Threads |-> "none"]
Top(t) == fr[t][Len(fr[t])]
Solving(p) == \E t \in Threads : \E k \in 1..Len(fr[t]) : fr[t][k].prob = p
SetTop(t, r) == fr' = [fr EXCEPT ![t][Len(fr[t])] = r]
Count(t) == SetTop(t, [Top(t) EXCEPT !.calls = @ + 1])
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
Replace(p) == /\ ~Solving(p) /\ \E v \in Versions : cons' = [cons EXCEPT ![p] = v]
              /\ UNCHANGED <<pc, gil, reglock, callmutex, poisoned, reg, cur, fr, runs, seen, gave>>
\* optimize() is entered with the interpreter lock and gives it up for the run
Frame(t, p) == [prob |-> p, want |-> cons[p], calls |-> 0, asked |-> FALSE, mine |-> FALSE, back |-> pc[t], id |-> cur[t]]
Enter(t) == /\ runs[t] < MaxRuns
            /\ \/ pc[t] = "python" /\ gil = None
               \/ pc[t] \in {"concall", "objcall"} /\ gil = t /\ Len(fr[t]) < MaxDepth
            /\ \E p \in Problems : fr' = [fr EXCEPT ![t] = Append(@, Frame(t, p))]
            /\ runs' = [runs EXCEPT ![t] = @ + 1] /\ seen' = [seen EXCEPT ![t] = 0] /\ gil' = None
            /\ gave' = [gave EXCEPT ![t] = "none"] /\ Go(t, "run")
            /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cur, cons>>
\* the library asks for the constraints, calls the objective, or a constraint, or ends
More(t) == Top(t).calls < MaxCalls
AskCons(t) == /\ pc[t] = "run" /\ More(t) /\ reglock = None /\ ~poisoned /\ reglock' = t /\ Go(t, "register")
              /\ Count(t)
              /\ UNCHANGED <<gil, callmutex, poisoned, reg, cur, cons, runs, seen, gave>>
AskDead(t) == /\ pc[t] \in {"run"} /\ More(t) /\ reglock = None /\ poisoned /\ Go(t, "unwind")
              /\ UNCHANGED <<gil, reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
RegAttach(t) == /\ pc[t] = "register" /\ gil = None /\ gil' = t /\ Go(t, "registering")
                /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
Register(t) == /\ pc[t] = "registering" /\ reg' = [reg EXCEPT ![Top(t).prob] = cons[Top(t).prob]] /\ cur' = [cur EXCEPT ![t] = Top(t).prob]
               /\ reglock' = None /\ gil' = None /\ Go(t, "run") /\ SetTop(t, [Top(t) EXCEPT !.asked = TRUE])
               /\ UNCHANGED <<callmutex, poisoned, cons, runs, seen, gave>>
\* with the constraints in hand the library evaluates them
Look(t) == /\ pc[t] = "run" /\ More(t) /\ Top(t).asked /\ reglock = None /\ ~poisoned /\ seen' = [seen EXCEPT ![t] = reg[cur[t]]]
           /\ reglock' = (IF HoldWhileCalling THEN t ELSE None) /\ Go(t, "conattach") /\ Count(t)
           /\ UNCHANGED <<gil, callmutex, poisoned, reg, cur, cons, runs, gave>>
LookDead(t) == /\ pc[t] = "run" /\ Top(t).asked /\ reglock = None /\ poisoned /\ Go(t, "unwind")
               /\ UNCHANGED <<gil, reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
ConAttach(t) == /\ pc[t] = "conattach" /\ gil = None /\ gil' = t /\ Go(t, "concall")
                /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
ConOk(t) == /\ pc[t] = "concall" /\ gil' = None /\ reglock' = (IF reglock = t THEN None ELSE reglock) /\ Go(t, "run")
            /\ UNCHANGED <<callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
ConRaise(t) == /\ pc[t] = "concall" /\ gil' = None
               /\ poisoned' = (poisoned \/ reglock = t) /\ reglock' = (IF reglock = t THEN None ELSE reglock) /\ Go(t, "unwind")
               /\ gave' = [gave EXCEPT ![t] = "raised"]
               /\ UNCHANGED <<callmutex, reg, cur, cons, fr, runs, seen>>
ObjWant(t) == /\ pc[t] = "run" /\ More(t) /\ Go(t, "objwait") /\ Count(t)
              /\ UNCHANGED <<gil, reglock, callmutex, poisoned, reg, cur, cons, runs, seen, gave>>
ObjLock(t) == /\ pc[t] = "objwait" /\ (callmutex = None \/ (callmutex = t /\ ~NotReentrant))
              /\ callmutex' = t /\ Go(t, "objattach") /\ SetTop(t, [Top(t) EXCEPT !.mine = callmutex = None])
              /\ UNCHANGED <<gil, reglock, poisoned, reg, cur, cons, runs, seen, gave>>
ObjAttach(t) == /\ pc[t] = "objattach" /\ gil = None /\ gil' = t /\ Go(t, "objcall")
                /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
\* the interpreter lock is handed around while Python code runs
Switch(t) == /\ pc[t] = "objcall" /\ gil = t /\ gil' = None /\ Go(t, "objattach")
             /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cur, cons, fr, runs, seen, gave>>
Unlock(t) == callmutex' = (IF Top(t).mine THEN None ELSE callmutex) /\ SetTop(t, [Top(t) EXCEPT !.mine = FALSE])
ObjOk(t) == /\ pc[t] = "objcall" /\ gil' = None /\ Unlock(t) /\ Go(t, "run")
            /\ UNCHANGED <<reglock, poisoned, reg, cur, cons, runs, seen, gave>>
ObjRaise(t) == /\ pc[t] = "objcall" /\ gil' = None /\ Unlock(t) /\ Go(t, "unwind") /\ gave' = [gave EXCEPT ![t] = "raised"]
               /\ UNCHANGED <<reglock, poisoned, reg, cur, cons, runs, seen>>
End(t) == /\ pc[t] \in {"run", "unwind"} /\ gil = None
          /\ Go(t, Top(t).back) /\ fr' = [fr EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
          /\ gil' = (IF Top(t).back = "python" THEN None ELSE t)
          /\ cur' = (IF ForgetOuter THEN cur ELSE [cur EXCEPT ![t] = Top(t).id])
          /\ gave' = [gave EXCEPT ![t] = IF pc[t] # "unwind" THEN "result" ELSE IF @ = "raised" THEN "exception" ELSE "foreign failure"]
          /\ seen' = [seen EXCEPT ![t] = IF Top(t).back = "concall" THEN fr[t][Len(fr[t]) - 1].want ELSE 0]
          /\ UNCHANGED <<reglock, callmutex, poisoned, reg, cons, runs>>
Step(t) == \/ Enter(t) \/ AskCons(t) \/ AskDead(t) \/ RegAttach(t) \/ Register(t) \/ Look(t) \/ LookDead(t) \/ ConAttach(t) \/ ConOk(t) \/ ConRaise(t)
           \/ ObjWant(t) \/ ObjLock(t) \/ ObjAttach(t) \/ Switch(t) \/ ObjOk(t) \/ ObjRaise(t) \/ End(t)
Finished == \A t \in Threads : pc[t] = "python" /\ runs[t] = MaxRuns
Next == (\E t \in Threads : Step(t)) \/ (\E p \in Problems : Replace(p)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Enter(t)) /\ SF_vars(RegAttach(t) \/ Register(t) \/ ConAttach(t) \/ ConOk(t))
        /\ SF_vars(ObjLock(t)) /\ SF_vars(ObjAttach(t)) /\ SF_vars(ObjOk(t)) /\ SF_vars(End(t))
------------------------------------------------------------------------------
\* constraints evaluated for a problem are its own
OwnConstraints == \A t \in Threads : pc[t] \in {"conattach", "concall"} => cur[t] = Top(t).prob /\ seen[t] = Top(t).want
\* nothing that failed is felt by others, or later
Unaffected == \A t \in Threads : gave[t] # "foreign failure"
NothingHeld == \A t \in Threads : pc[t] = "python" => gil # t /\ reglock # t /\ callmutex # t
\* the mutex is held exactly while its holder is inside an objective
Serial == callmutex # None => \E k \in 1..Len(fr[callmutex]) : fr[callmutex][k].mine
EveryRunEnds == \A t \in Threads : (pc[t] # "python") ~> (pc[t] = "python")
=============================================================================
