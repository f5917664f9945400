------------------------------ MODULE ImageOps ------------------------------
(* Images of uv planes: the Fourier transform with the origin in the middle.    *)
(* Planes are N by N, flat by rows (y), of Gaussian integers; N is 1, 2 or 4 so *)
(* that every root of unity is a quarter turn.                                  *)
EXTENDS Integers, Sequences, FiniteSets, Seqs
(* a turned by q quarters backwards: a * (-i)^q *)
Back(a, q) == LET k == q % 4 IN IF k = 0 THEN a ELSE IF k = 1 THEN <<a[2], -a[1]>> ELSE IF k = 2 THEN <<-a[1], -a[2]>> ELSE <<-a[2], a[1]>>
Turned(a, q) == Back(a, -q)
RowOf(N, p) == ((p - 1) \div N) - (N \div 2)
ColOf(N, p) == ((p - 1) % N) - (N \div 2)
Quarter(N, p, q) == (4 \div N) * (RowOf(N, p) * RowOf(N, q) + ColOf(N, p) * ColOf(N, q))
(* N*N times the image *)
ImageAt(N, a, p) == CSum([q \in 1..(N * N) |-> Back(a[q], Quarter(N, p, q))])
RealAt(N, a, p) == SumSeq([q \in 1..(N * N) |-> Back(a[q], Quarter(N, p, q))[1]])
Image(N, a) == [p \in 1..(N * N) |-> ImageAt(N, a, p)]
RealImage(N, a) == [p \in 1..(N * N) |-> RealAt(N, a, p)]
=============================================================================
