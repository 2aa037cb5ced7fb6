----------------------------- MODULE PyBindings -----------------------------
(***************************************************************************)
(* What a call of optimize() from Python has to deliver, given what the    *)
(* Rust library delivers for the same inputs. An operation is a record:    *)
(*   kind "run"  - exp: the result of the library (a number; 0: an error)  *)
(*        "bad"  - arguments that have to be rejected                      *)
(*        "hurt" - a constraint or bounds function raised                  *)
(***************************************************************************)
EXTENDS Integers

\* out: "ok", "value" (ValueError), "arg" (another ordinary exception), "exc" (any exception)
AllowedOut(op) ==
  CASE op.kind = "run" /\ op.exp # 0 -> {"ok"}
    [] op.kind = "run" -> {"value"}
    [] op.kind = "bad" -> {"value", "arg"}
    [] op.kind = "hurt" -> {"value", "arg", "exc"}
\* whatever came before, in this process, does not matter
Fits(op) ==
  /\ op.out \in AllowedOut(op)
  /\ op.out = "ok" => /\ op.got = op.exp
                      /\ op.gotobs = op.expobs
                      /\ op.gotcbs = op.expcbs
                      /\ op.gotcalls = op.expcalls
                      /\ op.gotlog = op.explog
                      /\ op.views /\ op.attrs
  /\ op.foreign = 0
=============================================================================
