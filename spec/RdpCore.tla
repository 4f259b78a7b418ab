------------------------------- MODULE RdpCore -------------------------------
(***************************************************************************)
(* The decisions of the Ramer-Douglas-Peucker algorithm, over any distance *)
(* (see Distance). A part of a polyline is the range lo..hi of p.          *)
(* The distance limit is given as n/4.                                     *)
(***************************************************************************)
EXTENDS Distance, TLC

(* the distance of every inner point of a part to its chord. All of them
   are fractions over 1 or over the same squared length of the chord. *)
Less(f, g) == IF f.d = g.d THEN f.n < g.n ELSE f.n * g.d < g.n * f.d
Exceeds(f, n) == 16 * f.n > n * n * f.d

(* the inner points that are farthest from the chord *)
Farthest(D(_, _, _), p, lo, hi) ==
    LET f == [k \in lo + 1..hi - 1 |-> D(p[lo], p[hi], p[k])]
    IN {k \in lo + 1..hi - 1 : \A j \in lo + 1..hi - 1 : ~Less(f[k], f[j])}

(* the part can be replaced by its chord *)
Flat(D(_, _, _), p, lo, hi, n) ==
    \A k \in lo + 1..hi - 1 : ~Exceeds(D(p[lo], p[hi], p[k]), n)

(***************************************************************************)
(* Is `out` a result? Parts are replaced by their chord, or split in any   *)
(* of their farthest points. Which points of out a part can become depends *)
(* on the part only, so it is decided once for every part that can come    *)
(* up, the short ones first.                                               *)
(***************************************************************************)
(* what can happen to part q: it is flat, or it is split (in a point of out) *)
RECURSIVE Top(_, _, _, _)
Top(f, k, hi, best) ==
    IF k >= hi THEN best ELSE Top(f, k + 1, hi, IF Less(f[best], f[k]) THEN k ELSE best)
Look(D(_, _, _), p, n, S, q) ==
    LET lo == q[1]
        hi == q[2]
        f == TLCEval([k \in lo + 1..hi - 1 |-> D(p[lo], p[hi], p[k])])
        top == Top(f, lo + 2, hi, lo + 1)
    IN IF hi - lo <= 1 THEN [flat |-> TRUE, at |-> {}]
       ELSE IF ~Exceeds(f[top], n) THEN [flat |-> TRUE, at |-> {}]
       ELSE [flat |-> FALSE, at |-> {m \in lo + 1..hi - 1 : p[m] \in S /\ ~Less(f[m], f[top])}]
(* rows[len][lo] is this for every part <<lo, lo + len>> that can come up; starts[len] are those lo *)
RECURSIVE Rows(_, _, _, _, _, _, _)
Rows(D(_, _, _), p, n, S, len, starts, rows) ==
    IF len = 0 THEN rows
    ELSE LET row == TLCEval([lo \in 1..Len(p) - len |->
                        IF lo \in starts[len] THEN Look(D, p, n, S, <<lo, lo + len>>)
                        ELSE [flat |-> FALSE, at |-> {}]])
             kids == UNION {UNION {{<<m - lo, lo>>, <<lo + len - m, m>>} : m \in row[lo].at} : lo \in starts[len]}
             more == IF kids = {} THEN starts
                     ELSE TLCEval([k \in 1..len |-> starts[k] \cup {x[2] : x \in {y \in kids : y[1] = k}}])
             next == TLCEval(<<row>> \o rows)
         IN IF Len(next) > 0 THEN Rows(D, p, n, S, len - 1, more, next) ELSE next

(* the pairs <<i, j>> such that part <<lo, lo + len>> becomes out[i..j], following its first point *)
Becomes(p, rows, out, done, len, lo) ==
    IF rows[len][lo].flat
    THEN {<<i, i>> : i \in {k \in 2..Len(out) : out[k] = p[lo + len] /\ out[k - 1] = p[lo]}}
    ELSE UNION {UNION {{<<a[1], b[2]>> : b \in {x \in done[lo + len - m][m] : x[1] = a[2] + 1}}
                       : a \in done[m - lo][lo]} : m \in rows[len][lo].at}
RECURSIVE Fill(_, _, _, _)
Fill(p, rows, out, done) ==
    LET len == Len(done) + 1 IN
    IF len = Len(p) THEN done[len - 1][1]
    ELSE Fill(p, rows, out, TLCEval(Append(done, [lo \in 1..Len(p) - len |-> Becomes(p, rows, out, done, len, lo)])))

(* what a part becomes when it is always split in the first of the farthest points that are in
   out: the indices of the points, -1 among them where there is none, and whether there ever was
   a choice (copies of a point that follow each other are none: whichever is taken, the others have no
   distance to it). Most of the time this settles it. *)
Copies(p, at) == LET a == CHOOSE x \in at : \A y \in at : x <= y
                     b == CHOOSE x \in at : \A y \in at : x >= y
                 IN \A k \in a..b : p[k] = p[a]
RECURSIVE Plain(_, _, _, _, _)
Plain(D(_, _, _), p, n, S, q) ==
    LET look == Look(D, p, n, S, q) IN
    IF look.flat THEN [ix |-> <<q[2]>>, choice |-> FALSE]
    ELSE IF look.at = {} THEN [ix |-> <<-1>>, choice |-> FALSE]
    ELSE LET m == CHOOSE x \in look.at : \A y \in look.at : x <= y
             l == Plain(D, p, n, S, <<q[1], m>>)
             r == Plain(D, p, n, S, <<m, q[2]>>)
         IN [ix |-> l.ix \o r.ix, choice |-> ~Copies(p, look.at) \/ l.choice \/ r.choice]

(* out is a simplification of p *)
Simplifies(D(_, _, _), given, n, result) ==
    LET p == TLCEval(given)
        out == TLCEval(result)
    IN IF Len(p) <= 2 THEN out = p
       ELSE /\ Len(out) >= 2 /\ out[1] = p[1] /\ out[Len(out)] = p[Len(p)]
            /\ LET S == TLCEval(RangeOf(out))
                   plain == TLCEval(Plain(D, p, n, S, <<1, Len(p)>>))
                   last == Len(p) - 1
                   starts == [k \in 1..last |-> IF k = last THEN {1} ELSE {}]
               IN \/ Tail(out) = [k \in 1..Len(plain.ix) |-> IF plain.ix[k] > 0 THEN p[plain.ix[k]] ELSE <<>>]
                  \/ /\ plain.choice
                     (* all choices are only followed for lines of up to 600 points *)
                     /\ Len(p) <= 600 => <<2, Len(out)>> \in Fill(p, Rows(D, p, n, S, last, starts, <<>>), out, <<>>)
=============================================================================
