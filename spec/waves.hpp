// Documented definition of every constituent (Schureman 1958, table 2; FES
// documentation), in the order of the identifiers.
#pragma once

namespace verif {

enum class F {
  one, o1, oo1, j1, m1, m2, m3, mf, mm, m22, m23, m24, k1, k2, f79, l2, m2_k2,
  m2_k1, m2_o1, m22_k1, m22_k2, m23_k2, f141
};

struct Row {
  int type;        // 1: short period, 0: long period
  int admittance;  // may be inferred
  int t, s, h, p, n, p1, shift, xi, nu, nuprim, nusec;
  F f;
};

// clang-format off
constexpr Row kRows[75] = {
    {0, 0,  0,  1,  0, -1,  0,  0,  0,  0,  0,  0,  0, F::mm},  // 0 Mm
    {0, 0,  0,  2,  0,  0,  0,  0,  0, -2,  0,  0,  0, F::mf},  // 1 Mf
    {0, 0,  0,  3,  0, -1,  0,  0,  0, -2,  0,  0,  0, F::mf},  // 2 Mtm
    {0, 0,  0,  4, -2,  0,  0,  0,  0, -2,  0,  0,  0, F::mf},  // 3 Msqm
    {1, 1,  1, -4,  1,  2,  0,  0,  1,  2, -1,  0,  0, F::o1},  // 4 2Q1
    {1, 1,  1, -4,  3,  0,  0,  0,  1,  2, -1,  0,  0, F::o1},  // 5 Sigma1
    {1, 0,  1, -3,  1,  1,  0,  0,  1,  2, -1,  0,  0, F::o1},  // 6 Q1
    {1, 1,  1, -3,  3, -1,  0,  0,  1,  2, -1,  0,  0, F::o1},  // 7 Rho1
    {1, 0,  1, -2,  1,  0,  0,  0,  1,  2, -1,  0,  0, F::o1},  // 8 O1
    {1, 0,  1, -2,  3,  0,  0,  0, -1,  0, -1,  0,  0, F::j1},  // 9 MP1
    {1, 1,  1, -1,  1,  1,  0,  0, -1,  0, -1,  0,  0, F::j1},  // 10 M11
    {1, 1,  1, -1,  1, -1,  0,  0, -1,  2, -1,  0,  0, F::o1},  // 11 M12
    {1, 0,  1, -1,  1,  1,  0,  0, -1,  0, -1,  0,  0, F::m1},  // 12 M13
    {1, 1,  1, -1,  3, -1,  0,  0, -1,  0, -1,  0,  0, F::j1},  // 13 Chi1
    {1, 1,  1,  0, -2,  0,  0,  1,  1,  0,  0,  0,  0, F::one},  // 14 Pi1
    {1, 0,  1,  0, -1,  0,  0,  0,  1,  0,  0,  0,  0, F::one},  // 15 P1
    {1, 0,  1,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 16 S1
    {1, 0,  1,  0,  1,  0,  0,  0, -1,  0,  0, -1,  0, F::k1},  // 17 K1
    {1, 0,  1,  0,  2,  0,  0, -1, -1,  0,  0,  0,  0, F::one},  // 18 Psi1
    {1, 1,  1,  0,  3,  0,  0,  0, -1,  0,  0,  0,  0, F::one},  // 19 Phi1
    {1, 1,  1,  1, -1,  1,  0,  0, -1,  0, -1,  0,  0, F::j1},  // 20 Theta1
    {1, 1,  1,  1,  1, -1,  0,  0, -1,  0, -1,  0,  0, F::j1},  // 21 J1
    {1, 1,  1,  2,  1,  0,  0,  0, -1, -2, -1,  0,  0, F::oo1},  // 22 OO1
    {1, 0,  2, -5,  4,  1,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 23 MNS2
    {1, 1,  2, -5,  4,  1,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 24 Eps2
    {1, 1,  2, -4,  2,  2,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 25 2N2
    {1, 1,  2, -4,  4,  0,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 26 Mu2
    {1, 0,  2, -4,  4,  0,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 27 2MS2
    {1, 0,  2, -3,  2,  1,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 28 N2
    {1, 1,  2, -3,  4, -1,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 29 Nu2
    {1, 0,  2, -2,  2,  0,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 30 M2
    {1, 0,  2, -2,  4,  0,  0,  0,  0,  2, -2,  0, -2, F::m2_k2},  // 31 MKS2
    {1, 1,  2, -1,  0,  1,  0,  0,  2,  2, -2,  0,  0, F::m2},  // 32 Lambda2
    {1, 1,  2, -1,  2, -1,  0,  0,  2,  2, -2,  0,  0, F::l2},  // 33 L2
    {1, 0,  2, -1,  2, -1,  0,  0,  2,  2, -2,  0,  0, F::m23},  // 34 2MN2
    {1, 1,  2,  0, -1,  0,  0,  1,  0,  0,  0,  0,  0, F::one},  // 35 T2
    {1, 0,  2,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 36 S2
    {1, 0,  2,  0,  1,  0,  0, -1,  2,  0,  0,  0,  0, F::one},  // 37 R2
    {1, 0,  2,  0,  2,  0,  0,  0,  0,  0,  0,  0, -2, F::k2},  // 38 K2
    {1, 0,  2,  1,  0, -1,  0,  0,  0,  0,  0,  0,  0, F::m22},  // 39 MSN2
    {1, 1,  2,  1,  2, -1,  0,  0,  0,  0, -2,  0,  0, F::f79},  // 40 Eta2
    {1, 0,  2,  2, -2,  0,  0,  0,  0, -2,  2,  0,  0, F::m2},  // 41 2SM2
    {1, 0,  3, -4,  3,  0,  0,  0,  1,  4, -3,  0,  0, F::m2_o1},  // 42 MO3
    {1, 0,  3, -4,  3,  0,  0,  0,  1,  4, -4,  1,  0, F::m22_k1},  // 43 2MK3
    {1, 0,  3, -3,  3,  0,  0,  0,  0,  3, -3,  0,  0, F::m3},  // 44 M3
    {1, 0,  3, -2,  3,  0,  0,  0, -1,  2, -2, -1,  0, F::m2_k1},  // 45 MK3
    {1, 0,  4, -6,  4,  2,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 46 N4
    {1, 0,  4, -5,  4,  1,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 47 MN4
    {1, 0,  4, -4,  4,  0,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 48 M4
    {1, 0,  4, -3,  2,  1,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 49 SN4
    {1, 0,  4, -2,  2,  0,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 50 MS4
    {1, 0,  4, -2,  4,  0,  0,  0,  0,  2, -2,  0, -2, F::m2_k2},  // 51 MK4
    {1, 0,  4,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 52 S4
    {1, 0,  4,  0,  2,  0,  0,  0,  0,  0,  0,  0, -2, F::k2},  // 53 SK4
    {1, 0,  4,  0,  2,  0,  0, -2,  0,  0,  0,  0,  0, F::one},  // 54 R4
    {1, 0,  6, -7,  6,  1,  0,  0,  0,  6, -6,  0,  0, F::m23},  // 55 2MN6
    {1, 0,  6, -6,  6,  0,  0,  0,  0,  6, -6,  0,  0, F::m23},  // 56 M6
    {1, 0,  6, -5,  4,  1,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 57 MSN6
    {1, 0,  6, -4,  4,  0,  0,  0,  0,  4, -4,  0,  0, F::m22},  // 58 2MS6
    {1, 0,  6, -4,  6,  0,  0,  0,  0,  4, -4,  0, -2, F::m22_k2},  // 59 2MK6
    {1, 0,  6, -2,  2,  0,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 60 2SM6
    {1, 0,  6, -2,  4,  0,  0,  0,  0,  2, -2,  0, -2, F::m2_k2},  // 61 MSK6
    {1, 0,  6,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 62 S6
    {1, 0,  8, -8,  8,  0,  0,  0,  0,  8, -8,  0,  0, F::m24},  // 63 M8
    {0, 0,  0,  2, -2,  0,  0,  0,  0,  2, -2,  0,  0, F::m2},  // 64 MSf
    {0, 0,  0,  0,  2,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 65 Ssa
    {0, 0,  0,  0,  1,  0,  0,  0,  0,  0,  0,  0,  0, F::one},  // 66 Sa
    {0, 0,  0,  0,  1,  0,  0, -1,  0,  0,  0,  0,  0, F::one},  // 67 Sa1
    {0, 0,  0,  0,  3,  0,  0, -1,  0,  0,  0,  0,  0, F::one},  // 68 Sta
    {0, 0,  0,  1,  0,  1,  0,  0,  2, -2,  0,  0,  0, F::mf},  // 69 Mm1
    {0, 0,  0,  2,  0, -2,  0,  0,  0,  0,  0,  0,  0, F::mm},  // 70 Mf1
    {0, 0,  0,  2, -2,  0,  0,  0,  0,  0,  0,  0,  0, F::mm},  // 71 A5
    {0, 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, F::mm},  // 72 M0
    {0, 0,  0,  1,  0,  0,  0,  0, -1, -1,  0,  0,  0, F::f141},  // 73 Mm2
    {0, 0,  0,  2,  0, -1,  0,  0, -1, -1,  0,  0,  0, F::f141},  // 74 Mf2
};
// clang-format on

}  // namespace verif
