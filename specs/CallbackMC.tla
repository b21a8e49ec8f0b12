----------------------------- MODULE CallbackMC ------------------------------
(* The abstract machine under callbacks (src/runtime/interp.c, fail.c), as it manages four registers: the pointer to    *)
(* the current jump buffer, the chain of C roots, the trap pointer and the stack pointer. Each activation of the        *)
(* interpreter saves three of them on entry. ghost is the stack of frames of Callback.tla: the machine refines it.      *)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS Depth, RestoreRoots, RestoreJump, CompareBase
(* ghost frames: [k |-> "ml" | "c" | "h", id] : an ML activation, a C function with a root, a handler. *)
VARIABLES ghost, acts, jump, roots, traps, sp, n, mode
vars == <<ghost, acts, jump, roots, traps, sp, n, mode>>
\* acts: activations [jump0, roots0, base]; jump: which activation's buffer is current (0: the main program's);
\* roots: identities of the C root frames on the chain; traps: handlers [sp, act]; sp: stack height.
Act(j, r, b) == [jump0 |-> j, roots0 |-> r, base |-> b]
Init == ghost = << >> /\ acts = <<Act(0, <<>>, 0)>> /\ jump = 1 /\ roots = <<>> /\ traps = <<>> /\ sp = 0 /\ n = 1 /\ mode = "ml"
(* ML installs a handler: PUSHTRAP. *)
Handle == mode = "ml" /\ Len(ghost) < Depth /\ ghost' = Append(ghost, [k |-> "h", id |-> n]) /\ n' = n + 1
          /\ traps' = Append(traps, [sp |-> sp + 1, act |-> Len(acts), id |-> n]) /\ sp' = sp + 1 /\ UNCHANGED <<acts, jump, roots, mode>>
(* The handled expression is done: POPTRAP. *)
Unhandle == mode = "ml" /\ ghost # <<>> /\ Last(ghost).k = "h" /\ ghost' = Front(ghost) /\ sp' = Last(traps).sp - 1 /\ traps' = Front(traps)
            /\ UNCHANGED <<acts, jump, roots, n, mode>>
(* ML calls a C function, which registers a root. *)
CallC == mode = "ml" /\ Len(ghost) < Depth /\ ghost' = Append(ghost, [k |-> "c", id |-> n]) /\ n' = n + 1 /\ roots' = Append(roots, n) /\ mode' = "c"
         /\ UNCHANGED <<acts, jump, traps, sp>>
(* The C function returns to ML. *)
RetC == mode = "c" /\ ghost' = Front(ghost) /\ roots' = Front(roots) /\ mode' = "ml" /\ UNCHANGED <<acts, jump, traps, sp, n>>
(* The C function calls back: a new activation of the interpreter. *)
Callback == mode = "c" /\ Len(ghost) < Depth /\ ghost' = Append(ghost, [k |-> "ml", id |-> n]) /\ n' = n + 1
            /\ acts' = Append(acts, Act(jump, roots, sp)) /\ jump' = Len(acts) + 1 /\ sp' = sp + 1 /\ mode' = "ml" /\ UNCHANGED <<roots, traps>>
(* The function called back returns: STOP. *)
Stop == mode = "ml" /\ ghost # <<>> /\ Last(ghost).k = "ml" /\ ghost' = Front(ghost) /\ acts' = Front(acts)
        /\ jump' = (IF RestoreJump THEN Last(acts).jump0 ELSE jump) /\ sp' = Last(acts).base /\ mode' = "c" /\ UNCHANGED <<roots, traps, n>>
(* RAISE, in ML or (through the current buffer) in C: activations without a handler of their own pass it on. *)
RECURSIVE Deliver(_, _, _, _)
Deliver(as, j, rs, ts) ==     \* as: activations, j: the one that runs, rs: roots, ts: traps
  IF j = 0 \/ j > Len(as) THEN [acts |-> SubSeq(as, 1, 1), jump |-> j, roots |-> rs, traps |-> <<>>, sp |-> 0, id |-> 0]
  ELSE LET base == as[j].base
           mine == ts # <<>> /\ (IF CompareBase THEN Last(ts).sp > base ELSE TRUE)
       IN IF mine THEN [acts |-> SubSeq(as, 1, j), jump |-> j, roots |-> rs, traps |-> Front(ts), sp |-> Last(ts).sp - 1, id |-> Last(ts).id]
          ELSE LET j2 == as[j].jump0
               IN IF j2 = 0 THEN [acts |-> SubSeq(as, 1, 1), jump |-> 1, roots |-> <<>>, traps |-> <<>>, sp |-> 0, id |-> 0]
                  ELSE Deliver(as, j2, IF RestoreRoots THEN as[j2].roots0 ELSE rs, ts)
RaiseIt ==
  LET d == Deliver(acts, jump, IF mode = "c" /\ RestoreRoots THEN acts[jump].roots0 ELSE roots, traps)
      hs == {i \in 1..Len(ghost) : ghost[i].k = "h"}
      top == IF hs = {} THEN 0 ELSE CHOOSE i \in hs : \A j \in hs : j <= i
  IN /\ acts' = d.acts /\ jump' = d.jump /\ roots' = d.roots /\ traps' = d.traps /\ sp' = d.sp /\ mode' = "ml" /\ UNCHANGED n
     /\ ghost' = IF top = 0 THEN <<>> ELSE SubSeq(ghost, 1, top - 1)
     /\ Assert(d.id = IF top = 0 THEN 0 ELSE ghost[top].id, <<"delivered to the wrong handler", d, ghost>>)
Next == Handle \/ Unhandle \/ CallC \/ RetC \/ Callback \/ Stop \/ RaiseIt
Spec == Init /\ [][Next]_vars
Ids(k) == LET s == SelectSeq(ghost, LAMBDA f : f.k = k) IN [i \in 1..Len(s) |-> s[i].id]
(* The registers agree with the frames. *)
Agree == /\ roots = Ids("c") /\ jump = Len(acts) /\ Len(acts) = 1 + Len(Ids("ml")) /\ [i \in 1..Len(traps) |-> traps[i].id] = Ids("h")
         /\ sp = Len(Ids("ml")) + Len(Ids("h"))
         /\ (mode = "c" <=> ghost # <<>> /\ Last(ghost).k = "c")
Bound == n < Depth + 4
=============================================================================
