--------------------------------- MODULE Cli ---------------------------------
(* The command line tool: one run is a machine that reads the flags, the       *)
(* schema, parses (fetching what flags allow), generates and writes.           *)
(* A run is configured by c:                                                   *)
(*  mode: run, help, version, unknown (a flag that does not exist)             *)
(*  input: file, stdin, both (file is valid, standard input is not), missing   *)
(*         (the file does not exist), none (a terminal or /dev/null)           *)
(*  schema: good, malformed, refused, nested (reported below the root), inRef, *)
(*         outRef, httpRef (needs a document in the working directory, outside *)
(*         of it, over http)                                                   *)
(*  out: "" (standard output), new, existing, dir, lost (in a directory that   *)
(*         does not exist), link (to an existing file), dangling               *)
(*  format, hosts, insecure, outside, paths: flags                             *)
EXTENDS Naturals, Sequences

Modes == {"run", "help", "version", "unknown"}
Inputs == {"file", "stdin", "both", "missing", "none"}
Schemas == {"good", "malformed", "refused", "nested", "inRef", "outRef", "httpRef"}
Outs == {"", "new", "existing", "dir", "lost", "link", "dangling"}
(* Flags that take lists; "other" is a host or a directory nothing needs       *)
Hosts == { <<>>, <<"other">>, <<"host">>, <<"other", "host">> }
Paths == { <<>>, <<"in">>, <<"out">>, <<"in", "out">> }

Configs == [mode : Modes, input : Inputs, schema : Schemas, out : Outs, format : BOOLEAN,
            hosts : Hosts, insecure : BOOLEAN, outside : BOOLEAN, paths : Paths]
In(x, l) == \E n \in DOMAIN l : l[n] = x

(* What the flags allow to be fetched                                          *)
FileSystem(c) == c.outside \/ c.paths # <<>>
MayRead(c, where) == /\ FileSystem(c)
                     /\ where = "out" => c.outside
                     /\ In(where, c.paths)
MayRequest(c) == In("host", c.hosts) /\ c.insecure
Available(c) == CASE c.schema = "inRef" -> MayRead(c, "in")
                  [] c.schema = "outRef" -> MayRead(c, "out")
                  [] c.schema = "httpRef" -> MayRequest(c)
                  [] OTHER -> TRUE
Parses(c) == c.schema \notin {"malformed", "refused"} /\ Available(c)
Writable(c) == c.out \in {"", "new", "dangling"}
Reads(c) == c.input \in {"file", "stdin", "both"}

(* The machine ----------------------------------------------------------- *)
VARIABLES cfg, phase, exit, stdout, stderr, file, requested
vars == <<cfg, phase, exit, stdout, stderr, file, requested>>

Init == /\ cfg \in { c \in Configs : c.mode # "run" => (c.out = "" /\ ~c.format /\ c.hosts = <<>> /\ ~c.insecure /\ ~c.outside /\ c.paths = <<>>) }
        /\ phase = "flags" /\ exit = 99 /\ stdout = "none" /\ stderr = FALSE
        /\ file = (IF cfg.out \in {"existing", "dir", "link"} THEN "kept" ELSE "absent") /\ requested = FALSE

Stop(code, e) == phase' = "done" /\ exit' = code /\ stderr' = e
Flags == /\ phase = "flags" /\ UNCHANGED <<cfg, file, requested>>
         /\ CASE cfg.mode \in {"help", "version"} -> Stop(0, FALSE) /\ stdout' = "text"
              [] cfg.mode = "unknown" -> Stop(2, TRUE) /\ UNCHANGED stdout
              [] OTHER -> phase' = "read" /\ UNCHANGED <<exit, stdout, stderr>>
Read == /\ phase = "read" /\ UNCHANGED <<cfg, stdout, file, requested>>
        /\ IF Reads(cfg) THEN phase' = "parse" /\ UNCHANGED <<exit, stderr>> ELSE Stop(1, TRUE)
Parse == /\ phase = "parse" /\ UNCHANGED <<cfg, stdout, file>>
         /\ requested' = (cfg.schema = "httpRef" /\ MayRequest(cfg))
         /\ IF Parses(cfg) THEN phase' = "write" /\ UNCHANGED <<exit, stderr>> ELSE Stop(1, TRUE)
Write == /\ phase = "write" /\ UNCHANGED <<cfg, requested>>
         /\ IF cfg.out = "" THEN stdout' = "value" /\ UNCHANGED file /\ Stop(0, FALSE)
            ELSE IF Writable(cfg) THEN file' = "value" /\ UNCHANGED stdout /\ Stop(0, FALSE)
            ELSE UNCHANGED <<stdout, file>> /\ Stop(1, TRUE)
Next == Flags \/ Read \/ Parse \/ Write
Spec == Init /\ [][Next]_vars

(* What a run ends with, at once (used for recorded runs)                      *)
Final(c) ==
    LET before == IF c.out \in {"existing", "dir", "link"} THEN "kept" ELSE "absent"
        failed == [exit |-> 1, stdout |-> "none", stderr |-> TRUE, file |-> before]
    IN CASE c.mode \in {"help", "version"} -> [exit |-> 0, stdout |-> "text", stderr |-> FALSE, file |-> before]
         [] c.mode = "unknown" -> [exit |-> 2, stdout |-> "none", stderr |-> TRUE, file |-> before]
         [] ~Reads(c) \/ ~Parses(c) \/ ~Writable(c) -> failed
         [] OTHER -> [exit |-> 0, stdout |-> IF c.out = "" THEN "value" ELSE "none", stderr |-> FALSE, file |-> IF c.out = "" THEN before ELSE "value"]
Requests(c) == c.mode = "run" /\ Reads(c) /\ c.schema = "httpRef" /\ MayRequest(c)

AsSaid == phase = "done" => [exit |-> exit, stdout |-> stdout, stderr |-> stderr, file |-> file] = Final(cfg) /\ requested = Requests(cfg)
(* The guarantees                                                              *)
OneDocument == phase = "done" /\ cfg.mode = "run" => ((exit = 0) <=> ((stdout = "value") # (file = "value")))
NothingOnFailure == phase = "done" /\ exit # 0 => stdout = "none" /\ file # "value" /\ stderr
Keeps == cfg.out \in {"existing", "dir", "link"} => file = "kept"
NoUninvitedRequest == requested => cfg.hosts # <<>> /\ cfg.insecure
=============================================================================
