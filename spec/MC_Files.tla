----------------------------- MODULE MC_Files -----------------------------
(* every layout of files around a folder, every way of asking for them *)
EXTENDS Fetch, Json
CONSTANTS Rich
All == {"d/resource_list.json", "d/swagger.json", "d/swagger.yaml", "d/swagger.yml", "d/x.json", "d.json", "d.yaml", "d.yml", "e.json/swagger.json"}
Asked == {"d", "d/", "d.json", "d.yaml", "d.yml", "d/x", "d/x.json", "d/swagger.json", "d/swagger.yml", "d/swagger", "e", "e.json", "e.json/swagger.json"}
VARIABLES there
Init == there \in SUBSET All
Next == FALSE /\ UNCHANGED there
Choice == TLCEval([p \in Asked |-> LET c == LocalChoice({"/s/" \o x : x \in there}, "/s/" \o p) IN IF c \in {"/s/" \o x : x \in there} THEN From(c, 4) ELSE ""])
(* a file asked for by its own name is read; the listing of 1.2 goes before what is in 2.0 *)
Own == \A p \in Asked \cap there : (\A q \in All : q \in there => ~StartsWith(q, p \o "/")) => Choice[p] = p
Before == "d/resource_list.json" \in there => Choice["d"] = "d/resource_list.json"
Found == \A p \in Asked : Choice[p] = "" \/ Choice[p] \in there
Emit == PrintT("@F " \o ToJson([there |-> there, pick |-> {<<p, Choice[p]>> : p \in Asked}]))
=============================================================================
