-------------------------------- MODULE Sweep --------------------------------
(***************************************************************************)
(* The sweep-line algorithm behind IntersectionData and IntersectionTester:*)
(* an event queue ordered bottom up, the set of active lines, the closest  *)
(* neighbours of every event point, and the lazily discovered crossings.   *)
(* All positions are exact rationals. One action = one event handled.      *)
(***************************************************************************)
EXTENDS Crossings, TLC, Json, SequencesExt

CONSTANTS W, H, N       \* all multisets of N segments of a grid
VARIABLES lines,    \* <<low, high>> segments
          ign,      \* ignore end point intersections
          stop,     \* stop at the first intersection
          events,   \* set of [p, drop, add, inter]
          active,   \* indices of the lines crossing the sweep-line
          result,   \* set of [p, l]
          pos,      \* the current sweep position (<<>> before the first event)
          least,    \* while building the input: the least segment that may be added
          pc
vars == <<least, lines, ign, stop, events, active, result, pos, pc>>

Ids == 1..Len(lines)
EventPoints(L) == {IntPt(L[i][1]) : i \in 1..Len(L)} \cup {IntPt(L[i][2]) : i \in 1..Len(L)}

Segs == SetToSeq({<<a, b>> \in Grid(W, H) \X Grid(W, H) : a = b \/ Below(a, b)})

Init == /\ lines = <<>> /\ ign \in BOOLEAN /\ stop \in BOOLEAN
        /\ events = {} /\ active = {} /\ result = {} /\ pos = <<>>
        /\ least = 1 /\ pc = "build"
(* with_lines(): the order of the lines does not matter, so they are added sorted *)
AddLine ==
    /\ pc = "build" /\ Len(lines) < N
    /\ \E k \in least..Len(Segs) : lines' = Append(lines, Segs[k]) /\ least' = k
    /\ UNCHANGED <<ign, stop, events, active, result, pos, pc>>
Start ==
    /\ pc = "build" /\ Len(lines) = N
    /\ events' = {[p |-> p, inter |-> {},
                  \* a line without length ends here, but it never becomes active
                  add |-> {i \in Ids : IntPt(lines[i][1]) = p /\ lines[i][1] # lines[i][2]},
                  drop |-> {i \in Ids : IntPt(lines[i][2]) = p}] : p \in EventPoints(lines)}
    /\ pc' = "sweep"
    /\ UNCHANGED <<least, lines, ign, stop, active, result, pos>>

(* an active line whose supporting line contains p *)
Passes(i, p) ==
    LET a == lines[i][1] b == lines[i][2]
    IN (b[1] - a[1]) * (p.y - a[2] * p.d) = (b[2] - a[2]) * (p.x - a[1] * p.d)

(* x of line i on the height of p, and its lean -dx/dy, as fractions [n, d], d > 0;
   a horizontal line only counts while its right end is still ahead *)
Frac(n, d) == [n |-> n, d |-> d]
FLess(f, g) == f.n * g.d < g.n * f.d
FEq(f, g) == f.n * g.d = g.n * f.d
Horizontal(i) == lines[i][1][2] = lines[i][2][2]
Dx(i) == lines[i][2][1] - lines[i][1][1]
Dy(i) == lines[i][2][2] - lines[i][1][2]
Crosses(i, p) == ~Horizontal(i) \/ p.x < lines[i][2][1] * p.d
XAt(i, p) == IF Horizontal(i) THEN Frac(lines[i][2][1], 1)
             ELSE Frac(lines[i][1][1] * Dy(i) * p.d + (p.y - lines[i][1][2] * p.d) * Dx(i), Dy(i) * p.d)
Lean(i) == IF Horizontal(i) THEN Frac(0, 1) ELSE Frac(-Dx(i), Dy(i))
PX(p) == Frac(p.x, p.d)

MaxX(S, p) == {i \in S : \A j \in S : ~FLess(XAt(i, p), XAt(j, p))}
MinX(S, p) == {i \in S : \A j \in S : ~FLess(XAt(j, p), XAt(i, p))}
MinLean(S) == {i \in S : \A j \in S : ~FLess(Lean(j), Lean(i))}
MaxLean(S) == {i \in S : \A j \in S : ~FLess(Lean(i), Lean(j))}
LeftOf(S, p) == MinLean(MaxX({i \in S : FLess(XAt(i, p), PX(p))}, p))
RightOf(S, p) == MaxLean(MinX({i \in S : FLess(PX(p), XAt(i, p))}, p))

(* the outermost of the lines leaving p upwards; a horizontal one is rightmost *)
SlopeLess(i, j) == IF Horizontal(i) THEN FALSE
                   ELSE IF Horizontal(j) THEN TRUE
                   ELSE Dx(i) * Dy(j) < Dx(j) * Dy(i)
Leftmost(S) == {i \in S : \A j \in S : ~SlopeLess(j, i)}
Rightmost(S) == {i \in S : \A j \in S : ~SlopeLess(i, j)}

(* crossings of two sets of lines, strictly ahead of p *)
Ahead(A, B, p) ==
    UNION {UNION {
        IF lines[i][2] = lines[j][2] THEN {}
        ELSE LET c == Classify(lines[i][1], lines[i][2], lines[j][1], lines[j][2])
                 q == IF c.kind = "point" THEN c.p ELSE IF c.kind = "overlap" THEN IntPt(c.lo) ELSE p
             IN IF c.kind # "none" /\ RBelow(p, q) THEN {[p |-> q, l |-> {i, j}]} ELSE {}
        : j \in B} : i \in A}

AddTo(E, c) ==
    IF \E e \in E : e.p = c.p
    THEN {IF e.p = c.p
          THEN [e EXCEPT !.inter = @ \cup {i \in c.l : ~IsEnd(lines[i], c.p)}]
          ELSE e : e \in E}
    ELSE E \cup {[p |-> c.p, add |-> {}, drop |-> {}, inter |-> c.l]}
RECURSIVE AddAll(_, _)
AddAll(E, C) == IF C = {} THEN E ELSE LET c == CHOOSE x \in C : TRUE IN AddAll(AddTo(E, c), C \ {c})

HandleEvent ==
    /\ pc = "sweep" /\ events # {}
    /\ LET e == CHOOSE x \in events : \A y \in events : y = x \/ RBelow(x.p, y.p)
           inter == e.inter \cup {i \in active : Passes(i, e.p) /\ i \notin e.drop}
           all == e.drop \cup e.add \cup inter
           twins == \E i, j \in e.add : i # j /\ lines[i][2] = lines[j][2]
           report == IF ign THEN inter # {} \/ twins ELSE Cardinality(all) > 1
           rest == active \ e.drop
           nb == {i \in rest \ inter : Crosses(i, e.p)}
           left == LeftOf(nb, e.p)
           right == RightOf(nb, e.p)
           up == e.add \cup inter
           new == IF up = {} THEN Ahead(left, right, e.p)
                  ELSE Ahead(left, Leftmost(up), e.p) \cup Ahead(right, Rightmost(up), e.p)
       IN /\ result' = IF report THEN result \cup {[p |-> e.p, l |-> all]} ELSE result
          /\ active' = rest \cup e.add
          /\ events' = AddAll(events \ {e}, new)
          /\ pos' = e.p
          /\ pc' = IF stop /\ result' # {} THEN "done" ELSE pc
    /\ UNCHANGED <<least, lines, ign, stop>>
Finish == /\ pc = "sweep" /\ events = {} /\ pc' = "done"
          /\ UNCHANGED <<least, lines, ign, stop, events, active, result, pos>>
Next == AddLine \/ Start \/ HandleEvent \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* the algorithm finds all intersections, and nothing else *)
Correct == pc = "done" =>
    LET E == Expected(lines, ign) IN result = (IF stop THEN First(E) ELSE E)
(* intersections are discovered before the sweep-line reaches them *)
OnlyAhead == pos # <<>> => \A e \in events : RBelow(pos, e.p)
(* active lines are the ones the sweep-line is crossing *)
ActiveLines == pos # <<>> =>
    active = {i \in Ids : ~RBelow(pos, IntPt(lines[i][1])) /\ RBelow(pos, IntPt(lines[i][2]))}
SoundSoFar == result \subseteq Expected(lines, ign)
(* the sweep-line never moves down *)
Monotone == [][pos # <<>> => (pos' = pos \/ RBelow(pos, pos'))]_vars
Terminates == <>(pc = "done")

Emit == pc = "done" => PrintT("CASE " \o ToJson([segs |-> lines, ign |-> ign, stop |-> stop]))
=============================================================================
