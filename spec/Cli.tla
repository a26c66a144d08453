-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tools as a machine over the files of a directory:      *)
(* one step is one call  creole2html SOURCE DESTINATION --encoding=CODEC . *)
(* files: name -> bytes.  A name in Folders is a directory, and one in     *)
(* Nowhere lies in a directory that does not exist.                        *)
(***************************************************************************)
EXTENDS Codec

D == INSTANCE CreoleDoc
H == INSTANCE Emitters

Tools == {"creole2html", "html2creole", "html2rest", "html2textile"}
Folders == {"folder"}
Nowhere == {"nowhere/file"}
Writable(name) == name \notin Folders \cup Nowhere

DefaultCodec == "utf-8"

HtmlTool(target, text, asis) ==
  LET r == H!HtmlTo(text, [target |-> target, strict |-> FALSE, policy |-> "transparent", asis |-> asis])
  IN IF r.exc = "" THEN Good(r.out) ELSE Bad
Convert(tool, text, asis) ==
  CASE tool = "creole2html" ->
         LET r == D!CreoleToHtml(text, [blog |-> TRUE, macros |-> "none", verbose |-> 1, strict |-> FALSE, asis |-> asis])
         IN IF r.raised THEN Bad ELSE Good(r.html)
    [] tool = "html2creole"  -> HtmlTool("creole", text, asis)
    [] tool = "html2rest"    -> HtmlTool("rest", text, asis)
    [] tool = "html2textile" -> HtmlTool("textile", text, asis)

(* one call; op: [tool, src, dst, enc] *)
Run(files, op, asis) ==
  LET codec == IF op.enc = "" THEN DefaultCodec ELSE CodecOf(op.enc)
      source == IF op.src \in DOMAIN files THEN Decode(codec, files[op.src]) ELSE Bad
      result == IF source.ok THEN Convert(op.tool, source.v, asis) ELSE Bad
      bytes == IF result.ok THEN Encode(codec, result.v) ELSE Bad
      ok == codec # NoCodec /\ bytes.ok /\ Writable(op.dst)
  IN [ok |-> ok, files |-> IF ok THEN [f \in DOMAIN files \cup {op.dst} |-> IF f = op.dst THEN bytes.v ELSE files[f]] ELSE files]
=============================================================================
