-------------------------------- MODULE Lint --------------------------------
(* The linter as a whole: options, then each file in turn (or standard input),*)
(* its errors and, if asked for, its tree, and the exit status.               *)
(* An input: opts, a sequence of <<option, argument>>; files, a sequence of   *)
(* [kind, name, t], kind being "file", "stdin" (named -), "bare" (standard    *)
(* input since no file was named) or "missing"; tty, whether standard output  *)
(* and whether standard error is a terminal.                                  *)
(* Colours appear as numbers from 300 on.                                     *)
EXTENDS Session, Json, IOUtils
VARIABLES id, file, parts, out, errs, status, found
lvars == <<sessionVars, id, file, parts, out, errs, status, found>>
Inputs == ndJsonDeserialize(IOEnv.IN)
it == Inputs[id]

(* ---- options ---- *)
Has(opts, S) == \E i \in 1..Len(opts) : opts[i][1] \in S
Colouring == {"--colorize", "--colorise", "--colourise"}
Uncolouring == {"--no-colorize", "--no-colorise", "--no-colourise"}
(* the last of those given counts *)
LastOf(opts, S) == LET I == {i \in 1..Len(opts) : opts[i][1] \in S}
                   IN IF I = {} THEN <<"", 0>> ELSE opts[CHOOSE i \in I : \A j \in I : j <= i]
Known == {"-1", "-a", "--ast", "--only-statements", "--output-width", "--stream"} \cup Colouring \cup Uncolouring
(* What ends the program at once is the first such option. *)
(* (-1 as the argument: it was left out) *)
Ends(opts) == LET I == {i \in 1..Len(opts) : opts[i][1] \notin Known \/ opts[i][2] = -1}
              IN IF I = {} THEN "" ELSE LET o == opts[CHOOSE i \in I : \A j \in I : i <= j][1]
                 IN IF o \in {"-h", "--help"} THEN "help" ELSE IF o = "--version" THEN "version" ELSE "usage"
Ast(o) == Has(o, {"-a", "--ast"})
Stream(o) == Has(o, {"--stream"}) \/ ~Ast(o)
Coloured(o, tty) == LET c == LastOf(o, Colouring \cup Uncolouring)[1]
                    IN IF c = "" THEN tty ELSE c \in Colouring
CfgOf(o, tty) == [only |-> Has(o, {"--only-statements"}), single |-> Has(o, {"-1"}),
             ord |-> 0, line |-> 1, col |-> 1, off |-> 0,
             marks |-> Coloured(o, tty[2]),
             render |-> IF Ast(o) THEN <<LastOf(o, {"--output-width"})[2]>> ELSE <<>>, ctx |-> "any"]

(* cfg.marks is about the errors, the rendering has its own. *)
LintMarks == [i \in 1..3 |-> <<<<300 + 2 * i>>, <<301 + 2 * i>>>>]
LintRenderMarks == IF Coloured(it.opts, it.tty[1]) THEN [i \in 1..10 |-> <<309 + i>>] ELSE NoMarks

Init == \E k \in 1..Len(Inputs) :
          /\ id = k /\ file = 0 /\ parts = <<>> /\ out = <<>> /\ errs = <<>> /\ found = FALSE
          /\ status = (CASE Ends(Inputs[k].opts) = "usage" -> 1
                         [] Ends(Inputs[k].opts) # "" -> 0 [] OTHER -> 99)
          /\ cfg = CfgOf(Inputs[k].opts, Inputs[k].tty)
          /\ text = <<>> /\ pos = 0 /\ ord = 0 /\ segs = <<>> /\ stop = FALSE

Name(f) == IF f.kind \in {"stdin", "bare"} THEN "<stdin>" ELSE f.name
ErrorsOf(seg) == [i \in 1..Len(seg.errors) |->
                   [file |-> Name(it.files[file]), at |-> seg.errors[i].at,
                    msg |-> seg.errors[i].msg, ctx |-> seg.errors[i].ctx]]

(* pos = 0: between files *)
Open == /\ status = 99 /\ pos = 0 /\ file < Len(it.files) /\ it.files[file + 1].kind # "missing"
        /\ text' = it.files[file + 1].t
        /\ file' = file + 1 /\ pos' = 1 /\ ord' = 0 /\ segs' = <<>> /\ parts' = <<>> /\ stop' = FALSE
        /\ UNCHANGED <<cfg, id, out, errs, status, found>>
CannotOpen == /\ status = 99 /\ pos = 0 /\ file < Len(it.files) /\ it.files[file + 1].kind = "missing"
              /\ errs' = Append(errs, [missing |-> it.files[file + 1].name])
              /\ status' = 1
              /\ UNCHANGED <<sessionVars, id, file, parts, out, found>>

Parse == /\ status = 99 /\ pos # 0 /\ ~stop
         /\ LET seg == SegmentAt(pos)
                fin == seg.tree.fin
            IN IF fin = pos
               THEN /\ stop' = TRUE
                    /\ UNCHANGED <<text, cfg, pos, ord, segs, id, file, parts, out, errs, status, found>>
               ELSE LET s == SegmentOut(pos, seg) IN
                    /\ pos' = fin /\ segs' = Append(segs, s) /\ ord' = ord + Len(seg.tree.nodes)
                    /\ parts' = Append(parts, seg.tree)
                    /\ stop' = (seg.tree.eof \/ cfg.single)
                    /\ errs' = errs \o ErrorsOf(s)
                    /\ found' = (found \/ s.errors # <<>>)
                    /\ out' = (IF Ast(it.opts) /\ Stream(it.opts) THEN out \o s.render[1] ELSE out)
                    /\ UNCHANGED <<text, cfg, id, file, status>>

(* The trees of all segments as one. *)
Shift(v, k) == CASE v[1] = "n" -> <<v[1], v[2], IF v[3] = 0 THEN 0 ELSE v[3] + k>>
                 [] v[1] = "l" -> <<v[1], v[2], [i \in 1..Len(v[3]) |-> IF v[3][i] = 0 THEN 0 ELSE v[3][i] + k]>>
                 [] OTHER -> v
Shifted(T, k) == [nodes |-> [i \in 1..Len(T.nodes) |->
                     [T.nodes[i] EXCEPT !.ch = [j \in 1..Len(T.nodes[i].ch) |-> T.nodes[i].ch[j] + k],
                                        !.r = [j \in 1..Len(T.nodes[i].r) |-> Shift(T.nodes[i].r[j], k)]]],
                  roots |-> [i \in 1..Len(T.stk[1].ch) |-> T.stk[1].ch[i] + k]]
All == LET F(acc, T) == LET s == Shifted(T, Len(acc.nodes))
                        IN [nodes |-> acc.nodes \o s.nodes, roots |-> acc.roots \o s.roots]
       IN FoldLeft(F, [nodes |-> <<>>, roots |-> <<>>], parts)
Whole == LET A == All
             order == Preorder(A.roots, A.nodes)
             o == [i \in Range(order) |-> (CHOOSE j \in 1..Len(order) : order[j] = i) - 1]
             St(i) == A.nodes[i].s - 1
             En(i) == A.nodes[i].e - 1
         IN Rendering(A.roots, A.nodes, o, St, En, cfg.render[1], LintRenderMarks)
Header(f) == IF f.kind = "bare" THEN <<>> ELSE Codes(Name(f)) \o <<58, 10>>
EndFile == /\ status = 99 /\ pos # 0 /\ stop
         /\ out' = (IF Ast(it.opts) /\ ~Stream(it.opts) THEN out \o Header(it.files[file]) \o Whole ELSE out)
         /\ pos' = 0
         /\ UNCHANGED <<text, cfg, ord, segs, stop, id, file, parts, errs, status, found>>
Exit == /\ status = 99 /\ pos = 0 /\ file = Len(it.files)
        /\ status' = IF found THEN 1 ELSE 0
        /\ UNCHANGED <<sessionVars, id, file, parts, out, errs, found>>
Write == /\ status # 99 /\ pos >= 0
         /\ JsonSerialize(IOEnv.OUT \o "/" \o ToString(id) \o ".json",
               [id |-> it.id, ends |-> Ends(it.opts), out |-> out, errs |-> errs, status |-> status,
                colour |-> [i \in 1..2 |-> Coloured(it.opts, it.tty[i])]])
         /\ pos' = -1
         /\ UNCHANGED <<text, cfg, ord, segs, stop, id, file, parts, out, errs, status, found>>
Next == Open \/ CannotOpen \/ Parse \/ EndFile \/ Exit \/ Write

(* The exit status is zero exactly when nothing was reported. *)
StatusTells == (status # 99 /\ Ends(it.opts) = "") => (status = 0 <=> errs = <<>>)
SilentWithoutAst == (~Ast(it.opts)) => out = <<>>
AllFilesRead == (status = 0 /\ Ends(it.opts) = "") => file = Len(it.files)
NothingDoneAtOnce == Ends(it.opts) # "" => (out = <<>> /\ errs = <<>> /\ file = 0)
=============================================================================
