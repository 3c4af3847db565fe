-------------------------------- MODULE Noise -------------------------------
(***************************************************************************)
(* The initial terrain in fixed-point arithmetic: two-dimensional simplex  *)
(* noise over a permutation table, four octaves, rounded to whole cells.   *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* n / d in units of 2^-16, n up to 2^22.
Frac(n, d) == LET q == (n * 256) \div d
                  r == (n * 256) - q * d
              IN q * 256 + (r * 256) \div d
\* a * k / 2^16 for a up to 2^22 and k up to 2^15
Mul16(a, k) == ((a \div 256) * k) \div 256 + ((a % 256) * k) \div 65536
F == 23988                           \* (sqrt(3) - 1) / 2 in 2^-16
G100 == 1384939                      \* 100 (3 - sqrt(3)) / 6 in 2^-16
Unskew(n) == (n * G100 + 50) \div 100
Gradient == << <<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>,
               <<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>> >>
At(perm, k) == perm[k + 1]
\* Contribution of the corner at (-x, -y), in 2^-27; x, y in 2^-16.
Corner(perm, i, j, x, y) ==
    LET a == x \div 2
        b == y \div 2
        t == 32768 - (a * a) \div 16384 - (b * b) \div 16384
        t2 == (t * t) \div 32768
        t4 == (t2 * t2) \div 16384
        g == Gradient[(At(perm, (i + At(perm, j)) % 256) % 8) + 1]
    IN IF t < 0 THEN 0 ELSE (t4 * (a * g[1] + b * g[2])) \div 256
\* Noise at (x, y), x and y in 2^-16; result in 2^-27.
Simplex(perm, x, y) ==
    LET s == Mul16(x + y, F)
        i == (x + s) \div 65536
        j == (y + s) \div 65536
        u == Unskew(i + j)
        x0 == x - i * 65536 + u
        y0 == y - j * 65536 + u
        lower == x0 > y0
        i1 == IF lower THEN 1 ELSE 0
        j1 == 1 - i1
        g1 == Unskew(1)
        g2 == Unskew(2)
    IN Corner(perm, i, j, x0, y0)
       + Corner(perm, i + i1, j + j1, x0 - i1 * 65536 + g1, y0 - j1 * 65536 + g1)
       + Corner(perm, i + 1, j + 1, x0 - 65536 + g2, y0 - 65536 + g2)
\* Ground height in 2^-25 cells of the column with the relative coordinates
\* nx / dx and ny / dy (within [0, 1]); the amplitude is r cells.
Height(perm, nx, dx, ny, dy, r) ==
    LET at(f) == Simplex(perm, Frac(f * nx, dx), Frac(f * ny, dy))
        sum == 8 * at(1) + 4 * at(2) + 2 * at(4) + at(8)
    IN (sum \div 64) * r
=============================================================================
