------------------------------- MODULE World --------------------------------
(* The part of the file system a command can see: a function from paths     *)
(* (relative to the scratch directory, names joined by "/") to nodes.       *)
(*   [kind |-> "file", blob |-> n]       an existing file with content n    *)
(*   [kind |-> "new", content |-> c]     a file the command wrote           *)
(*   [kind |-> "dir"]  [kind |-> "link", target |-> text]                   *)
(* A node may have a field deny: what the user may not do with it, a set of *)
(* "r" (read), "w" (change the entries of a directory), "x" (search it).    *)
EXTENDS Bytes, Text

Slash == 47
Dot == 46
DotDot == << 46, 46 >>
Root == T("/scratch")      \* absolute path of the scratch directory (the recorder writes it so)

Comps(path) == SelectSeq(SplitAt(path, Slash), LAMBDA c : c # << >> /\ c # << Dot >>)
PathOf(comps) == JoinWith(comps, Slash)
IsAbsolute(path) == path # << >> /\ path[1] = Slash

(* file name, stem and extension as the tool sees them; None-like results are <<>> *)
FileName(path) == LET c == Comps(path) IN IF c = << >> \/ c[Len(c)] = DotDot THEN << >> ELSE c[Len(c)]
LastDot(name) == LET ps == Positions(name, Dot) IN IF ps = << >> THEN 0 ELSE ps[Len(ps)]
Ext(path) == LET n == FileName(path) d == LastDot(n) IN IF d <= 1 THEN << >> ELSE SubSeq(n, d + 1, Len(n))
Stem(name) == LET d == LastDot(name) IN IF d <= 1 THEN name ELSE SubSeq(name, 1, d - 1)
WithExt(name, ext) == Stem(name) \o << Dot >> \o ext

NodeDir == [kind |-> "dir"]
Missing == [status |-> "none"]
Denied(node, what) == "deny" \in DOMAIN node /\ what \in node.deny
(* whether the user may do something with the directory a list of names leads to; the scratch directory is free *)
(* limits of the system, in bytes *)
LongestName == 255
LongestPath == 4095
Long(text, limit) == 4 * Len(text) > limit /\ Utf8Len(text) > limit
May(w, comps, what) == comps = << >> \/ ~Denied(w[PathOf(comps)], what)
Parent(at) == LET c == Comps(at) IN SubSeq(c, 1, Len(c) - 1)

(* Follow a path: status "node" (it leads to an existing node at .at), "absent" (only the last name does not   *)
(* exist, .at is where it would be) or "none".  The last name is only followed through links if final is TRUE. *)
RECURSIVE Walk(_, _, _, _, _)
Walk(w, done, todo, final, fuel) ==
    IF todo = << >> THEN [status |-> "node", at |-> PathOf(done)]
    ELSE LET c == Head(todo)
             rest == Tail(todo)
             here == PathOf(Append(done, c))
         IN  IF ~May(w, done, "x") \/ Long(c, LongestName) THEN Missing
             ELSE IF c = DotDot THEN (IF done = << >> THEN Missing ELSE Walk(w, SubSeq(done, 1, Len(done) - 1), rest, final, fuel))
             ELSE IF here \notin DOMAIN w THEN (IF rest = << >> THEN [status |-> "absent", at |-> here] ELSE Missing)
             ELSE IF w[here].kind = "link" /\ (rest # << >> \/ final) THEN
                  (IF fuel = 0 THEN Missing
                   ELSE LET t == w[here].target
                            r == IF IsAbsolute(t)
                                 THEN (IF IsPrefixAt(Root, t, 1)
                                       THEN Walk(w, << >>, Comps(SubSeq(t, Len(Root) + 1, Len(t))) \o rest, final, fuel - 1)
                                       ELSE Missing)
                                 ELSE Walk(w, done, Comps(t) \o rest, final, fuel - 1)
                        IN  r)
             ELSE IF rest # << >> /\ w[here].kind # "dir" THEN Missing
             ELSE Walk(w, Append(done, c), rest, final, fuel)

Start(path) ==
    IF Long(path, LongestPath) THEN << FALSE, << >> >>
    ELSE IF IsAbsolute(path)
    THEN (IF IsPrefixAt(Root, path, 1) THEN << TRUE, Comps(SubSeq(path, Len(Root) + 1, Len(path))) >> ELSE << FALSE, << >> >>)
    ELSE << path # << >>, Comps(path) >>
(* "x/" and "x/." only lead to a directory *)
Slashed(path) == path # << >> /\ (path[Len(path)] = Slash \/ (Len(path) >= 2 /\ path[Len(path)] = Dot /\ path[Len(path) - 1] = Slash))
Resolve(w, path) ==
    LET s == Start(path)
        r == IF ~s[1] THEN Missing ELSE Walk(w, << >>, s[2], TRUE, 8)
    IN  IF Slashed(path) /\ r.status = "node" /\ r.at # << >> /\ w[r.at].kind # "dir" THEN Missing ELSE r
ResolveLink(w, path) == LET s == Start(path) IN IF ~s[1] THEN Missing ELSE Walk(w, << >>, s[2], FALSE, 8)

(* the scratch directory itself is not among the paths *)
NodeAt(w, at) == IF at = << >> THEN NodeDir ELSE w[at]

Exists(w, path) == Resolve(w, path).status = "node"
IsDir(w, path)  == Exists(w, path) /\ NodeAt(w, Resolve(w, path).at).kind = "dir"
IsFile(w, path) == Exists(w, path) /\ NodeAt(w, Resolve(w, path).at).kind \in {"file", "new"}
SameFile(w, p, q) == Exists(w, p) /\ Exists(w, q) /\ Resolve(w, p).at = Resolve(w, q).at

(* Replace or create a file: through links if they lead to a file, otherwise at the name itself. *)
WriteTarget(w, path) ==
    LET r == Resolve(w, path) l == ResolveLink(w, path)
    IN  IF Slashed(path) THEN Missing
        ELSE IF r.status = "node" THEN (IF NodeAt(w, r.at).kind = "dir" \/ ~May(w, Parent(r.at), "w") THEN Missing ELSE r)
        ELSE IF l.status = "none" THEN Missing
        ELSE IF ~May(w, Parent(l.at), "w") THEN Missing ELSE l
CanWrite(w, path) == WriteTarget(w, path).status # "none"
Write(w, path, content) == (WriteTarget(w, path).at :> [kind |-> "new", content |-> content]) @@ w
CanRemove(w, path) == LET l == ResolveLink(w, path) IN l.status = "node" /\ May(w, Parent(l.at), "w")
RemoveFile(w, path) == LET at == ResolveLink(w, path).at IN [p \in DOMAIN w \ {at} |-> w[p]]

(* entries of a directory *)
Entries(w, path) ==
    LET at == Resolve(w, path).at
        pre == IF at = << >> THEN << >> ELSE Append(at, Slash)
    IN  {p \in DOMAIN w : p # << >> /\ p # at /\ IsPrefixAt(pre, p, 1)
                          /\ \A i \in (Len(pre) + 1)..Len(p) : p[i] # Slash}
BaseName(p) == LET c == Comps(p) IN c[Len(c)]
=============================================================================
