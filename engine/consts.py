"""Mathematical constants of BLS12-381, derived from the curve parameter and
checked against each other (not read from the code under verification)."""
X = -0xd201000000010000
R_ORD = X ** 4 - X ** 2 + 1
Q = (X - 1) ** 2 * R_ORD // 3 + X
assert (X - 1) ** 2 * R_ORD % 3 == 0
assert Q.bit_length() == 381 and R_ORD.bit_length() == 255 and Q % 4 == 3
W = 1 << 64
R384 = 1 << 384
R256 = 1 << 256
RINV_Q = pow(R384, -1, Q)
RINV_R = pow(R256, -1, R_ORD)
MOD = {"q": Q, "r": R_ORD}
MONT = {"q": R384 % Q, "r": R256 % R_ORD}
MONTINV = {"q": RINV_Q, "r": RINV_R}
NL = {"q": 6, "r": 4}
H1 = (X - 1) ** 2 // 3
H2 = (X ** 8 - 4 * X ** 7 + 5 * X ** 6 - 4 * X ** 4 + 6 * X ** 3 - 4 * X ** 2 - 4 * X + 13) // 9
H2_EFF = 3 * (X * X - 1) * H2
B1 = 4
assert (Q + 1 - (X + 1)) == H1 * R_ORD      # #E(Fq) = q + 1 - t, t = x + 1
