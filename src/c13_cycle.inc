// A linear programme of a planning request (FORCE formulation) on which the default primal simplex of
// GLPK cycles for ever.  It has no solution.
static const int kCycleIneq = 24, kCycleEq = 48, kCycleVars = 131;
static const double kCycleRhs[] = {0x1.1e31a3525fcfdp-2, 0x1.6fa6b21f63af4p-2, 0x1.576ddb576ddb5p-3, 0x1.2c2995a924e86p-2, 0x1.3dfa421e12b55p-2,
0x1.a23becfc49a8p-4, 0x1.1e31a5358edebp-2, 0x1.6fa6b03c34a06p-2, 0x1.576ddb576ddb5p-3, 0x1.2c2995a924e86p-2, 0x1.3dfa384d84052p-2,
0x1.a23c143e8468bp-4, 0x1.1e31acc24b1a4p-2, 0x1.6fa6a8af7864dp-2, 0x1.576ddb576ddb5p-3, 0x1.2c2995a924e86p-2, 0x1.3dfa35486bceep-2,
0x1.a23c2052e5418p-4, 0x1.1e31caf53c085p-2, 0x1.6fa68a7c8776cp-2, 0x1.576ddb576ddb5p-3, 0x1.2c2995a924e86p-2, 0x1.3dfa4d712d809p-2,
0x1.a23bbfafde7aep-4, 0x0p+0, 0x0p+0, -0x1.b4af5184e284dp+8, 0x0p+0, 0x1.12bd041fd7f4dp-12, 0x0p+0, 0x1.372d44159a6e5p-17, 0x0p+0,
-0x1.b4af50ca2dbbp+8, 0x0p+0, 0x1.12bd03aa60d14p-12, 0x0p+0, 0x1.372d44159a6e4p-16, 0x0p+0, -0x1.b4af500f78f13p+8, 0x0p+0, 0x1.12bd035247768p-12,
0x0p+0, 0x1.d2c3e62067a56p-16, 0x0p+0, -0x1.b4af4f54c4276p+8, 0x0p+0, 0x1.0e720f070c84ep-12, 0x0p+0, 0x1.d2c3e62067a56p-16, 0x0p+0,
-0x1.b4af4f54c4276p+8, 0x0p+0, 0x1.0e720f070c84ep-12, 0x0p+0, 0x1.d2c3e62067a57p-15, 0x0p+0, -0x1.b4af4d24a5ca1p+8, 0x0p+0, 0x1.019132255bb01p-12,
0x0p+0, 0x1.5e12ec984dbc2p-14, 0x0p+0, -0x1.b4af4af4876cbp+8, 0x0p+0, 0x1.9c1b836ef919ap-13, 0x0p+0, 0x1.d2c3e62067a57p-14, 0x0p+0,
-0x1.b4af48c4690f5p+8, 0x0p+0, 0x0p+0, 0x0p+0};
static const double kCycleLo[] = {-1e5, -1e5, -1e5, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0};
static const double kCycleCost[] = {-0x1.763cbdd30b606p-6, 0x1.231dbb46a1ef1p-5, -0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0,
0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0, 0x0p+0};
static const struct {
  int i, j;
  double v;
} kCycle[] = {{0, 0, 0x1p-6}, {1, 0, -0x1p-6}, {2, 1, 0x1p-6}, {3, 1, -0x1p-6}, {4, 2, 0x1p-6}, {5, 2, -0x1p-6}, {6, 0, 0x1p-4}, {7, 0, -0x1p-4}, {8,
1, 0x1p-4}, {9, 1, -0x1p-4}, {10, 2, 0x1p-4}, {11, 2, -0x1p-4}, {12, 0, 0x1p-2}, {13, 0, -0x1p-2}, {14, 1, 0x1p-2}, {15, 1, -0x1p-2}, {16, 2, 0x1p-2},
{17, 2, -0x1p-2}, {18, 0, 0x1p+0}, {19, 0, -0x1p+0}, {20, 1, 0x1p+0}, {21, 1, -0x1p+0}, {22, 2, 0x1p+0}, {23, 2, -0x1p+0}, {24, 18,
-0x1.7d05bd5c71437p-2}, {24, 17, -0x1.7d05bd5c71435p-2}, {24, 16, 0x1.7d05bd5c71437p-2}, {24, 15, 0x1.7d05bd5c71435p-2}, {24, 14,
-0x1.7d05bd5c71437p-2}, {24, 13, -0x1.7d05bd5c71435p-2}, {24, 12, 0x1.7d05bd5c71437p-2}, {24, 11, 0x1.7d05bd5c71435p-2}, {24, 10,
-0x1.7d05bd5c71437p-2}, {24, 9, -0x1.7d05bd5c71435p-2}, {24, 8, 0x1.7d05bd5c71437p-2}, {24, 7, 0x1.7d05bd5c71435p-2}, {24, 6, -0x1.7d05bd5c71437p-2},
{24, 5, -0x1.7d05bd5c71435p-2}, {24, 4, 0x1.7d05bd5c71437p-2}, {24, 3, 0x1.7d05bd5c71435p-2}, {25, 18, 0x1.7d05bd5c71434p-2}, {25, 17,
-0x1.7d05bd5c71437p-2}, {25, 16, -0x1.7d05bd5c71435p-2}, {25, 15, 0x1.7d05bd5c71437p-2}, {25, 14, 0x1.7d05bd5c71434p-2}, {25, 13,
-0x1.7d05bd5c71437p-2}, {25, 12, -0x1.7d05bd5c71435p-2}, {25, 11, 0x1.7d05bd5c71437p-2}, {25, 10, 0x1.7d05bd5c71434p-2}, {25, 9,
-0x1.7d05bd5c71437p-2}, {25, 8, -0x1.7d05bd5c71435p-2}, {25, 7, 0x1.7d05bd5c71437p-2}, {25, 6, 0x1.7d05bd5c71434p-2}, {25, 5, -0x1.7d05bd5c71437p-2},
{25, 4, -0x1.7d05bd5c71435p-2}, {25, 3, 0x1.7d05bd5c71437p-2}, {26, 18, -0x1.b3610c7415c78p-1}, {26, 17, -0x1.b3610c7415c78p-1}, {26, 16,
-0x1.b3610c7415c78p-1}, {26, 15, -0x1.b3610c7415c78p-1}, {26, 14, -0x1.b3610c7415c78p-1}, {26, 13, -0x1.b3610c7415c78p-1}, {26, 12,
-0x1.b3610c7415c78p-1}, {26, 11, -0x1.b3610c7415c78p-1}, {26, 10, -0x1.b3610c7415c78p-1}, {26, 9, -0x1.b3610c7415c78p-1}, {26, 8,
-0x1.b3610c7415c78p-1}, {26, 7, -0x1.b3610c7415c78p-1}, {26, 6, -0x1.b3610c7415c78p-1}, {26, 5, -0x1.b3610c7415c78p-1}, {26, 4,
-0x1.b3610c7415c78p-1}, {26, 3, -0x1.b3610c7415c78p-1}, {27, 18, -0x1.0c94fe26e1aacp-5}, {27, 17, -0x1.733e3588414d9p-2}, {27, 16,
-0x1.733e3588414d8p-2}, {27, 15, -0x1.0c94fe26e1aap-5}, {27, 14, 0x1.0eb289c175701p-3}, {27, 13, -0x1.3f444289d6003p-3}, {27, 12,
-0x1.3f444289d6002p-3}, {27, 11, 0x1.0eb289c175703p-3}, {27, 10, 0x1.cbc8f30dd41f7p-2}, {27, 9, 0x1.caf7a38dcbeaep-4}, {27, 8, 0x1.caf7a38dcbeb2p-4},
{27, 7, 0x1.cbc8f30dd41f8p-2}, {27, 6, 0x1.936a963ff11eap-2}, {27, 5, 0x1.d2fc60ac7fcf8p-5}, {27, 4, 0x1.d2fc60ac7fdp-5}, {27, 3,
0x1.936a963ff11ecp-2}, {28, 18, 0x1.f3a7c150c2ecap-3}, {28, 17, 0x1.f3a7c150c2ec8p-3}, {28, 16, -0x1.5f5ed46c0e88p-4}, {28, 15,
-0x1.5f5ed46c0e87cp-4}, {28, 14, 0x1.200e79953f4bdp-2}, {28, 13, 0x1.200e79953f4bcp-2}, {28, 12, -0x1.bb3b24199b18p-8}, {28, 11,
-0x1.bb3b24199b16p-8}, {28, 10, -0x1.d43a247e6fc4p-8}, {28, 9, -0x1.d43a247e6fc8p-8}, {28, 8, -0x1.605bf2bc5ae3ep-2}, {28, 7, -0x1.605bf2bc5ae3dp-2},
{28, 6, 0x1.e1d1e2d418a8p-10}, {28, 5, 0x1.e1d1e2d41898p-10}, {28, 4, -0x1.572938478d0c2p-2}, {28, 3, -0x1.572938478d0c2p-2}, {29, 18,
0x1.f00947246abccp-4}, {29, 17, 0x1.a906ece1f5a36p-5}, {29, 16, -0x1.f00947246abccp-4}, {29, 15, -0x1.a906ece1f5a36p-5}, {29, 14,
0x1.0b48e930fe956p-4}, {29, 13, -0x1.c18f0e300968bp-5}, {29, 12, -0x1.0b48e930fe957p-4}, {29, 11, 0x1.c18f0e300968bp-5}, {29, 10,
-0x1.98c8ac680a3d9p-3}, {29, 9, -0x1.780e1b6f89a54p-5}, {29, 8, 0x1.98c8ac680a3dap-3}, {29, 7, 0x1.780e1b6f89a54p-5}, {29, 6, -0x1.5f672f835a1fbp-3},
{29, 5, -0x1.a5dc31d1f0ad8p-6}, {29, 4, 0x1.5f672f835a1fbp-3}, {29, 3, 0x1.a5dc31d1f0ad8p-6}, {30, 34, -0x1.7d05bd5c71437p-2}, {30, 33,
-0x1.7d05bd5c71435p-2}, {30, 32, 0x1.7d05bd5c71437p-2}, {30, 31, 0x1.7d05bd5c71435p-2}, {30, 30, -0x1.7d05bd5c71437p-2}, {30, 29,
-0x1.7d05bd5c71435p-2}, {30, 28, 0x1.7d05bd5c71437p-2}, {30, 27, 0x1.7d05bd5c71435p-2}, {30, 26, -0x1.7d05bd5c71437p-2}, {30, 25,
-0x1.7d05bd5c71435p-2}, {30, 24, 0x1.7d05bd5c71437p-2}, {30, 23, 0x1.7d05bd5c71435p-2}, {30, 22, -0x1.7d05bd5c71437p-2}, {30, 21,
-0x1.7d05bd5c71435p-2}, {30, 20, 0x1.7d05bd5c71437p-2}, {30, 19, 0x1.7d05bd5c71435p-2}, {30, 0, 0x1.ee9a2c18f10cdp+3}, {31, 34, 0x1.7d05bd5c71434p-2},
{31, 33, -0x1.7d05bd5c71437p-2}, {31, 32, -0x1.7d05bd5c71435p-2}, {31, 31, 0x1.7d05bd5c71437p-2}, {31, 30, 0x1.7d05bd5c71434p-2}, {31, 29,
-0x1.7d05bd5c71437p-2}, {31, 28, -0x1.7d05bd5c71435p-2}, {31, 27, 0x1.7d05bd5c71437p-2}, {31, 26, 0x1.7d05bd5c71434p-2}, {31, 25,
-0x1.7d05bd5c71437p-2}, {31, 24, -0x1.7d05bd5c71435p-2}, {31, 23, 0x1.7d05bd5c71437p-2}, {31, 22, 0x1.7d05bd5c71434p-2}, {31, 21,
-0x1.7d05bd5c71437p-2}, {31, 20, -0x1.7d05bd5c71435p-2}, {31, 19, 0x1.7d05bd5c71437p-2}, {31, 1, 0x1.ee9a2c18f10cdp+3}, {32, 34,
-0x1.b3610c7415c78p-1}, {32, 33, -0x1.b3610c7415c78p-1}, {32, 32, -0x1.b3610c7415c78p-1}, {32, 31, -0x1.b3610c7415c78p-1}, {32, 30,
-0x1.b3610c7415c78p-1}, {32, 29, -0x1.b3610c7415c78p-1}, {32, 28, -0x1.b3610c7415c78p-1}, {32, 27, -0x1.b3610c7415c78p-1}, {32, 26,
-0x1.b3610c7415c78p-1}, {32, 25, -0x1.b3610c7415c78p-1}, {32, 24, -0x1.b3610c7415c78p-1}, {32, 23, -0x1.b3610c7415c78p-1}, {32, 22,
-0x1.b3610c7415c78p-1}, {32, 21, -0x1.b3610c7415c78p-1}, {32, 20, -0x1.b3610c7415c78p-1}, {32, 19, -0x1.b3610c7415c78p-1}, {32, 2,
0x1.ee9a2c18f10cdp+3}, {33, 34, -0x1.0c94fe26e1aacp-5}, {33, 33, -0x1.733e3588414d9p-2}, {33, 32, -0x1.733e3588414d8p-2}, {33, 31,
-0x1.0c94fe26e1aap-5}, {33, 30, 0x1.0eb289c175701p-3}, {33, 29, -0x1.3f444289d6003p-3}, {33, 28, -0x1.3f444289d6002p-3}, {33, 27,
0x1.0eb289c175703p-3}, {33, 26, 0x1.cbc8f30dd41f7p-2}, {33, 25, 0x1.caf7a38dcbeaep-4}, {33, 24, 0x1.caf7a38dcbeb2p-4}, {33, 23, 0x1.cbc8f30dd41f8p-2},
{33, 22, 0x1.936a963ff11eap-2}, {33, 21, 0x1.d2fc60ac7fcf8p-5}, {33, 20, 0x1.d2fc60ac7fdp-5}, {33, 19, 0x1.936a963ff11ecp-2}, {34, 34,
0x1.f3a7c150c2ecap-3}, {34, 33, 0x1.f3a7c150c2ec8p-3}, {34, 32, -0x1.5f5ed46c0e88p-4}, {34, 31, -0x1.5f5ed46c0e87cp-4}, {34, 30,
0x1.200e79953f4bdp-2}, {34, 29, 0x1.200e79953f4bcp-2}, {34, 28, -0x1.bb3b24199b18p-8}, {34, 27, -0x1.bb3b24199b16p-8}, {34, 26, -0x1.d43a247e6fc4p-8},
{34, 25, -0x1.d43a247e6fc8p-8}, {34, 24, -0x1.605bf2bc5ae3ep-2}, {34, 23, -0x1.605bf2bc5ae3dp-2}, {34, 22, 0x1.e1d1e2d418a8p-10}, {34, 21,
0x1.e1d1e2d41898p-10}, {34, 20, -0x1.572938478d0c2p-2}, {34, 19, -0x1.572938478d0c2p-2}, {34, 2, -0x1.372d44159a6e5p-17}, {35, 34,
0x1.f00947246abccp-4}, {35, 33, 0x1.a906ece1f5a36p-5}, {35, 32, -0x1.f00947246abccp-4}, {35, 31, -0x1.a906ece1f5a36p-5}, {35, 30,
0x1.0b48e930fe956p-4}, {35, 29, -0x1.c18f0e300968bp-5}, {35, 28, -0x1.0b48e930fe957p-4}, {35, 27, 0x1.c18f0e300968bp-5}, {35, 26,
-0x1.98c8ac680a3d9p-3}, {35, 25, -0x1.780e1b6f89a54p-5}, {35, 24, 0x1.98c8ac680a3dap-3}, {35, 23, 0x1.780e1b6f89a54p-5}, {35, 22,
-0x1.5f672f835a1fbp-3}, {35, 21, -0x1.a5dc31d1f0ad8p-6}, {35, 20, 0x1.5f672f835a1fbp-3}, {35, 19, 0x1.a5dc31d1f0ad8p-6}, {35, 1,
0x1.372d44159a6e5p-17}, {36, 50, -0x1.7d05bd5c71437p-2}, {36, 49, -0x1.7d05bd5c71435p-2}, {36, 48, 0x1.7d05bd5c71437p-2}, {36, 47,
0x1.7d05bd5c71435p-2}, {36, 46, -0x1.7d05bd5c71437p-2}, {36, 45, -0x1.7d05bd5c71435p-2}, {36, 44, 0x1.7d05bd5c71437p-2}, {36, 43,
0x1.7d05bd5c71435p-2}, {36, 42, -0x1.7d05bd5c71437p-2}, {36, 41, -0x1.7d05bd5c71435p-2}, {36, 40, 0x1.7d05bd5c71437p-2}, {36, 39,
0x1.7d05bd5c71435p-2}, {36, 38, -0x1.7d05bd5c71437p-2}, {36, 37, -0x1.7d05bd5c71435p-2}, {36, 36, 0x1.7d05bd5c71437p-2}, {36, 35,
0x1.7d05bd5c71435p-2}, {36, 0, 0x1.ee9a2c18f10cep+4}, {37, 50, 0x1.7d05bd5c71434p-2}, {37, 49, -0x1.7d05bd5c71437p-2}, {37, 48,
-0x1.7d05bd5c71435p-2}, {37, 47, 0x1.7d05bd5c71437p-2}, {37, 46, 0x1.7d05bd5c71434p-2}, {37, 45, -0x1.7d05bd5c71437p-2}, {37, 44,
-0x1.7d05bd5c71435p-2}, {37, 43, 0x1.7d05bd5c71437p-2}, {37, 42, 0x1.7d05bd5c71434p-2}, {37, 41, -0x1.7d05bd5c71437p-2}, {37, 40,
-0x1.7d05bd5c71435p-2}, {37, 39, 0x1.7d05bd5c71437p-2}, {37, 38, 0x1.7d05bd5c71434p-2}, {37, 37, -0x1.7d05bd5c71437p-2}, {37, 36,
-0x1.7d05bd5c71435p-2}, {37, 35, 0x1.7d05bd5c71437p-2}, {37, 1, 0x1.ee9a2c18f10cep+4}, {38, 50, -0x1.b3610c7415c78p-1}, {38, 49,
-0x1.b3610c7415c78p-1}, {38, 48, -0x1.b3610c7415c78p-1}, {38, 47, -0x1.b3610c7415c78p-1}, {38, 46, -0x1.b3610c7415c78p-1}, {38, 45,
-0x1.b3610c7415c78p-1}, {38, 44, -0x1.b3610c7415c78p-1}, {38, 43, -0x1.b3610c7415c78p-1}, {38, 42, -0x1.b3610c7415c78p-1}, {38, 41,
-0x1.b3610c7415c78p-1}, {38, 40, -0x1.b3610c7415c78p-1}, {38, 39, -0x1.b3610c7415c78p-1}, {38, 38, -0x1.b3610c7415c78p-1}, {38, 37,
-0x1.b3610c7415c78p-1}, {38, 36, -0x1.b3610c7415c78p-1}, {38, 35, -0x1.b3610c7415c78p-1}, {38, 2, 0x1.ee9a2c18f10cep+4}, {39, 50,
-0x1.0c94fe26e1aacp-5}, {39, 49, -0x1.733e3588414d9p-2}, {39, 48, -0x1.733e3588414d8p-2}, {39, 47, -0x1.0c94fe26e1aap-5}, {39, 46,
0x1.0eb289c175701p-3}, {39, 45, -0x1.3f444289d6003p-3}, {39, 44, -0x1.3f444289d6002p-3}, {39, 43, 0x1.0eb289c175703p-3}, {39, 42,
0x1.cbc8f30dd41f7p-2}, {39, 41, 0x1.caf7a38dcbeaep-4}, {39, 40, 0x1.caf7a38dcbeb2p-4}, {39, 39, 0x1.cbc8f30dd41f8p-2}, {39, 38, 0x1.936a963ff11eap-2},
{39, 37, 0x1.d2fc60ac7fcf8p-5}, {39, 36, 0x1.d2fc60ac7fdp-5}, {39, 35, 0x1.936a963ff11ecp-2}, {39, 1, -0x1.756993959d304p-19}, {40, 50,
0x1.f3a7c150c2ecap-3}, {40, 49, 0x1.f3a7c150c2ec8p-3}, {40, 48, -0x1.5f5ed46c0e88p-4}, {40, 47, -0x1.5f5ed46c0e87cp-4}, {40, 46,
0x1.200e79953f4bdp-2}, {40, 45, 0x1.200e79953f4bcp-2}, {40, 44, -0x1.bb3b24199b18p-8}, {40, 43, -0x1.bb3b24199b16p-8}, {40, 42, -0x1.d43a247e6fc4p-8},
{40, 41, -0x1.d43a247e6fc8p-8}, {40, 40, -0x1.605bf2bc5ae3ep-2}, {40, 39, -0x1.605bf2bc5ae3dp-2}, {40, 38, 0x1.e1d1e2d418a8p-10}, {40, 37,
0x1.e1d1e2d41898p-10}, {40, 36, -0x1.572938478d0c2p-2}, {40, 35, -0x1.572938478d0c2p-2}, {40, 2, -0x1.372d44159a6e4p-16}, {40, 0,
0x1.756993959d304p-19}, {41, 50, 0x1.f00947246abccp-4}, {41, 49, 0x1.a906ece1f5a36p-5}, {41, 48, -0x1.f00947246abccp-4}, {41, 47,
-0x1.a906ece1f5a36p-5}, {41, 46, 0x1.0b48e930fe956p-4}, {41, 45, -0x1.c18f0e300968bp-5}, {41, 44, -0x1.0b48e930fe957p-4}, {41, 43,
0x1.c18f0e300968bp-5}, {41, 42, -0x1.98c8ac680a3d9p-3}, {41, 41, -0x1.780e1b6f89a54p-5}, {41, 40, 0x1.98c8ac680a3dap-3}, {41, 39,
0x1.780e1b6f89a54p-5}, {41, 38, -0x1.5f672f835a1fbp-3}, {41, 37, -0x1.a5dc31d1f0ad8p-6}, {41, 36, 0x1.5f672f835a1fbp-3}, {41, 35,
0x1.a5dc31d1f0ad8p-6}, {41, 1, 0x1.372d44159a6e4p-16}, {42, 66, -0x1.7d05bd5c71437p-2}, {42, 65, -0x1.7d05bd5c71435p-2}, {42, 64,
0x1.7d05bd5c71437p-2}, {42, 63, 0x1.7d05bd5c71435p-2}, {42, 62, -0x1.7d05bd5c71437p-2}, {42, 61, -0x1.7d05bd5c71435p-2}, {42, 60,
0x1.7d05bd5c71437p-2}, {42, 59, 0x1.7d05bd5c71435p-2}, {42, 58, -0x1.7d05bd5c71437p-2}, {42, 57, -0x1.7d05bd5c71435p-2}, {42, 56,
0x1.7d05bd5c71437p-2}, {42, 55, 0x1.7d05bd5c71435p-2}, {42, 54, -0x1.7d05bd5c71437p-2}, {42, 53, -0x1.7d05bd5c71435p-2}, {42, 52,
0x1.7d05bd5c71437p-2}, {42, 51, 0x1.7d05bd5c71435p-2}, {42, 0, 0x1.72f3a112b4c9bp+5}, {43, 66, 0x1.7d05bd5c71434p-2}, {43, 65, -0x1.7d05bd5c71437p-2},
{43, 64, -0x1.7d05bd5c71435p-2}, {43, 63, 0x1.7d05bd5c71437p-2}, {43, 62, 0x1.7d05bd5c71434p-2}, {43, 61, -0x1.7d05bd5c71437p-2}, {43, 60,
-0x1.7d05bd5c71435p-2}, {43, 59, 0x1.7d05bd5c71437p-2}, {43, 58, 0x1.7d05bd5c71434p-2}, {43, 57, -0x1.7d05bd5c71437p-2}, {43, 56,
-0x1.7d05bd5c71435p-2}, {43, 55, 0x1.7d05bd5c71437p-2}, {43, 54, 0x1.7d05bd5c71434p-2}, {43, 53, -0x1.7d05bd5c71437p-2}, {43, 52,
-0x1.7d05bd5c71435p-2}, {43, 51, 0x1.7d05bd5c71437p-2}, {43, 1, 0x1.72f3a112b4c9bp+5}, {44, 66, -0x1.b3610c7415c78p-1}, {44, 65,
-0x1.b3610c7415c78p-1}, {44, 64, -0x1.b3610c7415c78p-1}, {44, 63, -0x1.b3610c7415c78p-1}, {44, 62, -0x1.b3610c7415c78p-1}, {44, 61,
-0x1.b3610c7415c78p-1}, {44, 60, -0x1.b3610c7415c78p-1}, {44, 59, -0x1.b3610c7415c78p-1}, {44, 58, -0x1.b3610c7415c78p-1}, {44, 57,
-0x1.b3610c7415c78p-1}, {44, 56, -0x1.b3610c7415c78p-1}, {44, 55, -0x1.b3610c7415c78p-1}, {44, 54, -0x1.b3610c7415c78p-1}, {44, 53,
-0x1.b3610c7415c78p-1}, {44, 52, -0x1.b3610c7415c78p-1}, {44, 51, -0x1.b3610c7415c78p-1}, {44, 2, 0x1.72f3a112b4c9bp+5}, {45, 66,
-0x1.0c94fe26e1aacp-5}, {45, 65, -0x1.733e3588414d9p-2}, {45, 64, -0x1.733e3588414d8p-2}, {45, 63, -0x1.0c94fe26e1aap-5}, {45, 62,
0x1.0eb289c175701p-3}, {45, 61, -0x1.3f444289d6003p-3}, {45, 60, -0x1.3f444289d6002p-3}, {45, 59, 0x1.0eb289c175703p-3}, {45, 58,
0x1.cbc8f30dd41f7p-2}, {45, 57, 0x1.caf7a38dcbeaep-4}, {45, 56, 0x1.caf7a38dcbeb2p-4}, {45, 55, 0x1.cbc8f30dd41f8p-2}, {45, 54, 0x1.936a963ff11eap-2},
{45, 53, 0x1.d2fc60ac7fcf8p-5}, {45, 52, 0x1.d2fc60ac7fdp-5}, {45, 51, 0x1.936a963ff11ecp-2}, {45, 1, 0x1.b4af2e82fcaecp+2}, {46, 66,
0x1.f3a7c150c2ecap-3}, {46, 65, 0x1.f3a7c150c2ec8p-3}, {46, 64, -0x1.5f5ed46c0e88p-4}, {46, 63, -0x1.5f5ed46c0e87cp-4}, {46, 62,
0x1.200e79953f4bdp-2}, {46, 61, 0x1.200e79953f4bcp-2}, {46, 60, -0x1.bb3b24199b18p-8}, {46, 59, -0x1.bb3b24199b16p-8}, {46, 58, -0x1.d43a247e6fc4p-8},
{46, 57, -0x1.d43a247e6fc8p-8}, {46, 56, -0x1.605bf2bc5ae3ep-2}, {46, 55, -0x1.605bf2bc5ae3dp-2}, {46, 54, 0x1.e1d1e2d418a8p-10}, {46, 53,
0x1.e1d1e2d41898p-10}, {46, 52, -0x1.572938478d0c2p-2}, {46, 51, -0x1.572938478d0c2p-2}, {46, 2, -0x1.d2c3e62067a56p-16}, {46, 0,
-0x1.b4af2e82fcaecp+2}, {47, 66, 0x1.f00947246abccp-4}, {47, 65, 0x1.a906ece1f5a36p-5}, {47, 64, -0x1.f00947246abccp-4}, {47, 63,
-0x1.a906ece1f5a36p-5}, {47, 62, 0x1.0b48e930fe956p-4}, {47, 61, -0x1.c18f0e300968bp-5}, {47, 60, -0x1.0b48e930fe957p-4}, {47, 59,
0x1.c18f0e300968bp-5}, {47, 58, -0x1.98c8ac680a3d9p-3}, {47, 57, -0x1.780e1b6f89a54p-5}, {47, 56, 0x1.98c8ac680a3dap-3}, {47, 55,
0x1.780e1b6f89a54p-5}, {47, 54, -0x1.5f672f835a1fbp-3}, {47, 53, -0x1.a5dc31d1f0ad8p-6}, {47, 52, 0x1.5f672f835a1fbp-3}, {47, 51,
0x1.a5dc31d1f0ad8p-6}, {47, 1, 0x1.d2c3e62067a56p-16}, {48, 82, -0x1.7d05bd5c71437p-2}, {48, 81, -0x1.7d05bd5c71435p-2}, {48, 80,
0x1.7d05bd5c71437p-2}, {48, 79, 0x1.7d05bd5c71435p-2}, {48, 78, -0x1.7d05bd5c71437p-2}, {48, 77, -0x1.7d05bd5c71435p-2}, {48, 76,
0x1.7d05bd5c71437p-2}, {48, 75, 0x1.7d05bd5c71435p-2}, {48, 74, -0x1.7d05bd5c71437p-2}, {48, 73, -0x1.7d05bd5c71435p-2}, {48, 72,
0x1.7d05bd5c71437p-2}, {48, 71, 0x1.7d05bd5c71435p-2}, {48, 70, -0x1.7d05bd5c71437p-2}, {48, 69, -0x1.7d05bd5c71435p-2}, {48, 68,
0x1.7d05bd5c71437p-2}, {48, 67, 0x1.7d05bd5c71435p-2}, {48, 0, 0x1.72f3a112b4c9bp+5}, {49, 82, 0x1.7d05bd5c71434p-2}, {49, 81, -0x1.7d05bd5c71437p-2},
{49, 80, -0x1.7d05bd5c71435p-2}, {49, 79, 0x1.7d05bd5c71437p-2}, {49, 78, 0x1.7d05bd5c71434p-2}, {49, 77, -0x1.7d05bd5c71437p-2}, {49, 76,
-0x1.7d05bd5c71435p-2}, {49, 75, 0x1.7d05bd5c71437p-2}, {49, 74, 0x1.7d05bd5c71434p-2}, {49, 73, -0x1.7d05bd5c71437p-2}, {49, 72,
-0x1.7d05bd5c71435p-2}, {49, 71, 0x1.7d05bd5c71437p-2}, {49, 70, 0x1.7d05bd5c71434p-2}, {49, 69, -0x1.7d05bd5c71437p-2}, {49, 68,
-0x1.7d05bd5c71435p-2}, {49, 67, 0x1.7d05bd5c71437p-2}, {49, 1, 0x1.72f3a112b4c9bp+5}, {50, 82, -0x1.b3610c7415c78p-1}, {50, 81,
-0x1.b3610c7415c78p-1}, {50, 80, -0x1.b3610c7415c78p-1}, {50, 79, -0x1.b3610c7415c78p-1}, {50, 78, -0x1.b3610c7415c78p-1}, {50, 77,
-0x1.b3610c7415c78p-1}, {50, 76, -0x1.b3610c7415c78p-1}, {50, 75, -0x1.b3610c7415c78p-1}, {50, 74, -0x1.b3610c7415c78p-1}, {50, 73,
-0x1.b3610c7415c78p-1}, {50, 72, -0x1.b3610c7415c78p-1}, {50, 71, -0x1.b3610c7415c78p-1}, {50, 70, -0x1.b3610c7415c78p-1}, {50, 69,
-0x1.b3610c7415c78p-1}, {50, 68, -0x1.b3610c7415c78p-1}, {50, 67, -0x1.b3610c7415c78p-1}, {50, 2, 0x1.72f3a112b4c9bp+5}, {51, 82,
0x1.e8c96aef705ap-3}, {51, 81, -0x1.6864558bba7cp-3}, {51, 80, -0x1.6864558bba7bep-3}, {51, 79, 0x1.e8c96aef705a2p-3}, {51, 78, 0x1.842ecd9ffa332p-2},
{51, 77, -0x1.234094ecd9be8p-5}, {51, 76, -0x1.234094ecd9bep-5}, {51, 75, 0x1.842ecd9ffa334p-2}, {51, 74, -0x1.0c94fe26e1aacp-5}, {51, 73,
-0x1.733e3588414d9p-2}, {51, 72, -0x1.733e3588414d8p-2}, {51, 71, -0x1.0c94fe26e1aap-5}, {51, 70, 0x1.0eb289c175701p-3}, {51, 69,
-0x1.3f444289d6003p-3}, {51, 68, -0x1.3f444289d6002p-3}, {51, 67, 0x1.0eb289c175703p-3}, {51, 1, 0x1.b4af2e82fcaecp+2}, {52, 82,
0x1.3b43b56bd76e6p-2}, {52, 81, 0x1.3b43b56bd76e4p-2}, {52, 80, -0x1.b54cab46f7f2ep-4}, {52, 79, -0x1.b54cab46f7f2ap-4}, {52, 78,
0x1.1efb06e223334p-2}, {52, 77, 0x1.1efb06e223333p-2}, {52, 76, -0x1.1337b2b6e46fap-3}, {52, 75, -0x1.1337b2b6e46f8p-3}, {52, 74,
0x1.f3a7c150c2ecap-3}, {52, 73, 0x1.f3a7c150c2ec8p-3}, {52, 72, -0x1.5f5ed46c0e88p-4}, {52, 71, -0x1.5f5ed46c0e87cp-4}, {52, 70,
0x1.200e79953f4bdp-2}, {52, 69, 0x1.200e79953f4bcp-2}, {52, 68, -0x1.bb3b24199b18p-8}, {52, 67, -0x1.bb3b24199b16p-8}, {52, 2,
-0x1.d2c3e62067a56p-16}, {52, 0, -0x1.b4af2e82fcaecp+2}, {53, 82, 0x1.f02ee7bb60e44p-6}, {53, 81, -0x1.d8d24547f98dep-5}, {53, 80,
-0x1.f02ee7bb60e46p-6}, {53, 79, 0x1.d8d24547f98dep-5}, {53, 78, -0x1.6244dbae92309p-5}, {53, 77, -0x1.b69488793128p-4}, {53, 76,
0x1.6244dbae92309p-5}, {53, 75, 0x1.b69488793128p-4}, {53, 74, 0x1.f00947246abccp-4}, {53, 73, 0x1.a906ece1f5a36p-5}, {53, 72, -0x1.f00947246abccp-4},
{53, 71, -0x1.a906ece1f5a36p-5}, {53, 70, 0x1.0b48e930fe956p-4}, {53, 69, -0x1.c18f0e300968bp-5}, {53, 68, -0x1.0b48e930fe957p-4}, {53, 67,
0x1.c18f0e300968bp-5}, {53, 1, 0x1.d2c3e62067a56p-16}, {54, 98, -0x1.7d05bd5c71437p-2}, {54, 97, -0x1.7d05bd5c71435p-2}, {54, 96,
0x1.7d05bd5c71437p-2}, {54, 95, 0x1.7d05bd5c71435p-2}, {54, 94, -0x1.7d05bd5c71437p-2}, {54, 93, -0x1.7d05bd5c71435p-2}, {54, 92,
0x1.7d05bd5c71437p-2}, {54, 91, 0x1.7d05bd5c71435p-2}, {54, 90, -0x1.7d05bd5c71437p-2}, {54, 89, -0x1.7d05bd5c71435p-2}, {54, 88,
0x1.7d05bd5c71437p-2}, {54, 87, 0x1.7d05bd5c71435p-2}, {54, 86, -0x1.7d05bd5c71437p-2}, {54, 85, -0x1.7d05bd5c71435p-2}, {54, 84,
0x1.7d05bd5c71437p-2}, {54, 83, 0x1.7d05bd5c71435p-2}, {54, 0, 0x1.72f3a112b4c9bp+6}, {55, 98, 0x1.7d05bd5c71434p-2}, {55, 97, -0x1.7d05bd5c71437p-2},
{55, 96, -0x1.7d05bd5c71435p-2}, {55, 95, 0x1.7d05bd5c71437p-2}, {55, 94, 0x1.7d05bd5c71434p-2}, {55, 93, -0x1.7d05bd5c71437p-2}, {55, 92,
-0x1.7d05bd5c71435p-2}, {55, 91, 0x1.7d05bd5c71437p-2}, {55, 90, 0x1.7d05bd5c71434p-2}, {55, 89, -0x1.7d05bd5c71437p-2}, {55, 88,
-0x1.7d05bd5c71435p-2}, {55, 87, 0x1.7d05bd5c71437p-2}, {55, 86, 0x1.7d05bd5c71434p-2}, {55, 85, -0x1.7d05bd5c71437p-2}, {55, 84,
-0x1.7d05bd5c71435p-2}, {55, 83, 0x1.7d05bd5c71437p-2}, {55, 1, 0x1.72f3a112b4c9bp+6}, {56, 98, -0x1.b3610c7415c78p-1}, {56, 97,
-0x1.b3610c7415c78p-1}, {56, 96, -0x1.b3610c7415c78p-1}, {56, 95, -0x1.b3610c7415c78p-1}, {56, 94, -0x1.b3610c7415c78p-1}, {56, 93,
-0x1.b3610c7415c78p-1}, {56, 92, -0x1.b3610c7415c78p-1}, {56, 91, -0x1.b3610c7415c78p-1}, {56, 90, -0x1.b3610c7415c78p-1}, {56, 89,
-0x1.b3610c7415c78p-1}, {56, 88, -0x1.b3610c7415c78p-1}, {56, 87, -0x1.b3610c7415c78p-1}, {56, 86, -0x1.b3610c7415c78p-1}, {56, 85,
-0x1.b3610c7415c78p-1}, {56, 84, -0x1.b3610c7415c78p-1}, {56, 83, -0x1.b3610c7415c78p-1}, {56, 2, 0x1.72f3a112b4c9bp+6}, {57, 98,
0x1.e8c96aef705ap-3}, {57, 97, -0x1.6864558bba7cp-3}, {57, 96, -0x1.6864558bba7bep-3}, {57, 95, 0x1.e8c96aef705a2p-3}, {57, 94, 0x1.842ecd9ffa332p-2},
{57, 93, -0x1.234094ecd9be8p-5}, {57, 92, -0x1.234094ecd9bep-5}, {57, 91, 0x1.842ecd9ffa334p-2}, {57, 90, -0x1.0c94fe26e1aacp-5}, {57, 89,
-0x1.733e3588414d9p-2}, {57, 88, -0x1.733e3588414d8p-2}, {57, 87, -0x1.0c94fe26e1aap-5}, {57, 86, 0x1.0eb289c175701p-3}, {57, 85,
-0x1.3f444289d6003p-3}, {57, 84, -0x1.3f444289d6002p-3}, {57, 83, 0x1.0eb289c175703p-3}, {57, 1, 0x1.b4af374376244p+4}, {58, 98,
0x1.3b43b56bd76e6p-2}, {58, 97, 0x1.3b43b56bd76e4p-2}, {58, 96, -0x1.b54cab46f7f2ep-4}, {58, 95, -0x1.b54cab46f7f2ap-4}, {58, 94,
0x1.1efb06e223334p-2}, {58, 93, 0x1.1efb06e223333p-2}, {58, 92, -0x1.1337b2b6e46fap-3}, {58, 91, -0x1.1337b2b6e46f8p-3}, {58, 90,
0x1.f3a7c150c2ecap-3}, {58, 89, 0x1.f3a7c150c2ec8p-3}, {58, 88, -0x1.5f5ed46c0e88p-4}, {58, 87, -0x1.5f5ed46c0e87cp-4}, {58, 86,
0x1.200e79953f4bdp-2}, {58, 85, 0x1.200e79953f4bcp-2}, {58, 84, -0x1.bb3b24199b18p-8}, {58, 83, -0x1.bb3b24199b16p-8}, {58, 2,
-0x1.d2c3e62067a57p-15}, {58, 0, -0x1.b4af374376244p+4}, {59, 98, 0x1.f02ee7bb60e44p-6}, {59, 97, -0x1.d8d24547f98dep-5}, {59, 96,
-0x1.f02ee7bb60e46p-6}, {59, 95, 0x1.d8d24547f98dep-5}, {59, 94, -0x1.6244dbae92309p-5}, {59, 93, -0x1.b69488793128p-4}, {59, 92,
0x1.6244dbae92309p-5}, {59, 91, 0x1.b69488793128p-4}, {59, 90, 0x1.f00947246abccp-4}, {59, 89, 0x1.a906ece1f5a36p-5}, {59, 88, -0x1.f00947246abccp-4},
{59, 87, -0x1.a906ece1f5a36p-5}, {59, 86, 0x1.0b48e930fe956p-4}, {59, 85, -0x1.c18f0e300968bp-5}, {59, 84, -0x1.0b48e930fe957p-4}, {59, 83,
0x1.c18f0e300968bp-5}, {59, 1, 0x1.d2c3e62067a57p-15}, {60, 114, -0x1.7d05bd5c71437p-2}, {60, 113, -0x1.7d05bd5c71435p-2}, {60, 112,
0x1.7d05bd5c71437p-2}, {60, 111, 0x1.7d05bd5c71435p-2}, {60, 110, -0x1.7d05bd5c71437p-2}, {60, 109, -0x1.7d05bd5c71435p-2}, {60, 108,
0x1.7d05bd5c71437p-2}, {60, 107, 0x1.7d05bd5c71435p-2}, {60, 106, -0x1.7d05bd5c71437p-2}, {60, 105, -0x1.7d05bd5c71435p-2}, {60, 104,
0x1.7d05bd5c71437p-2}, {60, 103, 0x1.7d05bd5c71435p-2}, {60, 102, -0x1.7d05bd5c71437p-2}, {60, 101, -0x1.7d05bd5c71435p-2}, {60, 100,
0x1.7d05bd5c71437p-2}, {60, 99, 0x1.7d05bd5c71435p-2}, {60, 0, 0x1.1636b8ce07974p+7}, {61, 114, 0x1.7d05bd5c71434p-2}, {61, 113,
-0x1.7d05bd5c71437p-2}, {61, 112, -0x1.7d05bd5c71435p-2}, {61, 111, 0x1.7d05bd5c71437p-2}, {61, 110, 0x1.7d05bd5c71434p-2}, {61, 109,
-0x1.7d05bd5c71437p-2}, {61, 108, -0x1.7d05bd5c71435p-2}, {61, 107, 0x1.7d05bd5c71437p-2}, {61, 106, 0x1.7d05bd5c71434p-2}, {61, 105,
-0x1.7d05bd5c71437p-2}, {61, 104, -0x1.7d05bd5c71435p-2}, {61, 103, 0x1.7d05bd5c71437p-2}, {61, 102, 0x1.7d05bd5c71434p-2}, {61, 101,
-0x1.7d05bd5c71437p-2}, {61, 100, -0x1.7d05bd5c71435p-2}, {61, 99, 0x1.7d05bd5c71437p-2}, {61, 1, 0x1.1636b8ce07974p+7}, {62, 114,
-0x1.b3610c7415c78p-1}, {62, 113, -0x1.b3610c7415c78p-1}, {62, 112, -0x1.b3610c7415c78p-1}, {62, 111, -0x1.b3610c7415c78p-1}, {62, 110,
-0x1.b3610c7415c78p-1}, {62, 109, -0x1.b3610c7415c78p-1}, {62, 108, -0x1.b3610c7415c78p-1}, {62, 107, -0x1.b3610c7415c78p-1}, {62, 106,
-0x1.b3610c7415c78p-1}, {62, 105, -0x1.b3610c7415c78p-1}, {62, 104, -0x1.b3610c7415c78p-1}, {62, 103, -0x1.b3610c7415c78p-1}, {62, 102,
-0x1.b3610c7415c78p-1}, {62, 101, -0x1.b3610c7415c78p-1}, {62, 100, -0x1.b3610c7415c78p-1}, {62, 99, -0x1.b3610c7415c78p-1}, {62, 2,
0x1.1636b8ce07974p+7}, {63, 114, 0x1.e8c96aef705ap-3}, {63, 113, -0x1.6864558bba7cp-3}, {63, 112, -0x1.6864558bba7bep-3}, {63, 111,
0x1.e8c96aef705a2p-3}, {63, 110, 0x1.842ecd9ffa332p-2}, {63, 109, -0x1.234094ecd9be8p-5}, {63, 108, -0x1.234094ecd9bep-5}, {63, 107,
0x1.842ecd9ffa334p-2}, {63, 106, -0x1.0c94fe26e1aacp-5}, {63, 105, -0x1.733e3588414d9p-2}, {63, 104, -0x1.733e3588414d8p-2}, {63, 103,
-0x1.0c94fe26e1aap-5}, {63, 102, 0x1.0eb289c175701p-3}, {63, 101, -0x1.3f444289d6003p-3}, {63, 100, -0x1.3f444289d6002p-3}, {63, 99,
0x1.0eb289c175703p-3}, {63, 1, 0x1.b4af4003ef99cp+6}, {64, 114, 0x1.3b43b56bd76e6p-2}, {64, 113, 0x1.3b43b56bd76e4p-2}, {64, 112,
-0x1.b54cab46f7f2ep-4}, {64, 111, -0x1.b54cab46f7f2ap-4}, {64, 110, 0x1.1efb06e223334p-2}, {64, 109, 0x1.1efb06e223333p-2}, {64, 108,
-0x1.1337b2b6e46fap-3}, {64, 107, -0x1.1337b2b6e46f8p-3}, {64, 106, 0x1.f3a7c150c2ecap-3}, {64, 105, 0x1.f3a7c150c2ec8p-3}, {64, 104,
-0x1.5f5ed46c0e88p-4}, {64, 103, -0x1.5f5ed46c0e87cp-4}, {64, 102, 0x1.200e79953f4bdp-2}, {64, 101, 0x1.200e79953f4bcp-2}, {64, 100,
-0x1.bb3b24199b18p-8}, {64, 99, -0x1.bb3b24199b16p-8}, {64, 2, -0x1.5e12ec984dbc2p-14}, {64, 0, -0x1.b4af4003ef99cp+6}, {65, 114,
0x1.f02ee7bb60e44p-6}, {65, 113, -0x1.d8d24547f98dep-5}, {65, 112, -0x1.f02ee7bb60e46p-6}, {65, 111, 0x1.d8d24547f98dep-5}, {65, 110,
-0x1.6244dbae92309p-5}, {65, 109, -0x1.b69488793128p-4}, {65, 108, 0x1.6244dbae92309p-5}, {65, 107, 0x1.b69488793128p-4}, {65, 106,
0x1.f00947246abccp-4}, {65, 105, 0x1.a906ece1f5a36p-5}, {65, 104, -0x1.f00947246abccp-4}, {65, 103, -0x1.a906ece1f5a36p-5}, {65, 102,
0x1.0b48e930fe956p-4}, {65, 101, -0x1.c18f0e300968bp-5}, {65, 100, -0x1.0b48e930fe957p-4}, {65, 99, 0x1.c18f0e300968bp-5}, {65, 1,
0x1.5e12ec984dbc2p-14}, {66, 130, -0x1.7d05bd5c71437p-2}, {66, 129, -0x1.7d05bd5c71435p-2}, {66, 128, 0x1.7d05bd5c71437p-2}, {66, 127,
0x1.7d05bd5c71435p-2}, {66, 126, -0x1.7d05bd5c71437p-2}, {66, 125, -0x1.7d05bd5c71435p-2}, {66, 124, 0x1.7d05bd5c71437p-2}, {66, 123,
0x1.7d05bd5c71435p-2}, {66, 122, -0x1.7d05bd5c71437p-2}, {66, 121, -0x1.7d05bd5c71435p-2}, {66, 120, 0x1.7d05bd5c71437p-2}, {66, 119,
0x1.7d05bd5c71435p-2}, {66, 118, -0x1.7d05bd5c71437p-2}, {66, 117, -0x1.7d05bd5c71435p-2}, {66, 116, 0x1.7d05bd5c71437p-2}, {66, 115,
0x1.7d05bd5c71435p-2}, {66, 0, 0x1.72f3a112b4c9ap+7}, {67, 130, 0x1.7d05bd5c71434p-2}, {67, 129, -0x1.7d05bd5c71437p-2}, {67, 128,
-0x1.7d05bd5c71435p-2}, {67, 127, 0x1.7d05bd5c71437p-2}, {67, 126, 0x1.7d05bd5c71434p-2}, {67, 125, -0x1.7d05bd5c71437p-2}, {67, 124,
-0x1.7d05bd5c71435p-2}, {67, 123, 0x1.7d05bd5c71437p-2}, {67, 122, 0x1.7d05bd5c71434p-2}, {67, 121, -0x1.7d05bd5c71437p-2}, {67, 120,
-0x1.7d05bd5c71435p-2}, {67, 119, 0x1.7d05bd5c71437p-2}, {67, 118, 0x1.7d05bd5c71434p-2}, {67, 117, -0x1.7d05bd5c71437p-2}, {67, 116,
-0x1.7d05bd5c71435p-2}, {67, 115, 0x1.7d05bd5c71437p-2}, {67, 1, 0x1.72f3a112b4c9ap+7}, {68, 130, -0x1.b3610c7415c78p-1}, {68, 129,
-0x1.b3610c7415c78p-1}, {68, 128, -0x1.b3610c7415c78p-1}, {68, 127, -0x1.b3610c7415c78p-1}, {68, 126, -0x1.b3610c7415c78p-1}, {68, 125,
-0x1.b3610c7415c78p-1}, {68, 124, -0x1.b3610c7415c78p-1}, {68, 123, -0x1.b3610c7415c78p-1}, {68, 122, -0x1.b3610c7415c78p-1}, {68, 121,
-0x1.b3610c7415c78p-1}, {68, 120, -0x1.b3610c7415c78p-1}, {68, 119, -0x1.b3610c7415c78p-1}, {68, 118, -0x1.b3610c7415c78p-1}, {68, 117,
-0x1.b3610c7415c78p-1}, {68, 116, -0x1.b3610c7415c78p-1}, {68, 115, -0x1.b3610c7415c78p-1}, {68, 2, 0x1.72f3a112b4c9ap+7}, {69, 130,
0x1.e8c96aef705ap-3}, {69, 129, -0x1.6864558bba7cp-3}, {69, 128, -0x1.6864558bba7bep-3}, {69, 127, 0x1.e8c96aef705a2p-3}, {69, 126,
0x1.842ecd9ffa332p-2}, {69, 125, -0x1.234094ecd9be8p-5}, {69, 124, -0x1.234094ecd9bep-5}, {69, 123, 0x1.842ecd9ffa334p-2}, {69, 122,
-0x1.0c94fe26e1aacp-5}, {69, 121, -0x1.733e3588414d9p-2}, {69, 120, -0x1.733e3588414d8p-2}, {69, 119, -0x1.0c94fe26e1aap-5}, {69, 118,
0x1.0eb289c175701p-3}, {69, 117, -0x1.3f444289d6003p-3}, {69, 116, -0x1.3f444289d6002p-3}, {69, 115, 0x1.0eb289c175703p-3}, {69, 1,
0x1.b4af48c4690f5p+8}, {70, 130, 0x1.3b43b56bd76e6p-2}, {70, 129, 0x1.3b43b56bd76e4p-2}, {70, 128, -0x1.b54cab46f7f2ep-4}, {70, 127,
-0x1.b54cab46f7f2ap-4}, {70, 126, 0x1.1efb06e223334p-2}, {70, 125, 0x1.1efb06e223333p-2}, {70, 124, -0x1.1337b2b6e46fap-3}, {70, 123,
-0x1.1337b2b6e46f8p-3}, {70, 122, 0x1.f3a7c150c2ecap-3}, {70, 121, 0x1.f3a7c150c2ec8p-3}, {70, 120, -0x1.5f5ed46c0e88p-4}, {70, 119,
-0x1.5f5ed46c0e87cp-4}, {70, 118, 0x1.200e79953f4bdp-2}, {70, 117, 0x1.200e79953f4bcp-2}, {70, 116, -0x1.bb3b24199b18p-8}, {70, 115,
-0x1.bb3b24199b16p-8}, {70, 2, -0x1.d2c3e62067a57p-14}, {70, 0, -0x1.b4af48c4690f5p+8}, {71, 130, 0x1.f02ee7bb60e44p-6}, {71, 129,
-0x1.d8d24547f98dep-5}, {71, 128, -0x1.f02ee7bb60e46p-6}, {71, 127, 0x1.d8d24547f98dep-5}, {71, 126, -0x1.6244dbae92309p-5}, {71, 125,
-0x1.b69488793128p-4}, {71, 124, 0x1.6244dbae92309p-5}, {71, 123, 0x1.b69488793128p-4}, {71, 122, 0x1.f00947246abccp-4}, {71, 121,
0x1.a906ece1f5a36p-5}, {71, 120, -0x1.f00947246abccp-4}, {71, 119, -0x1.a906ece1f5a36p-5}, {71, 118, 0x1.0b48e930fe956p-4}, {71, 117,
-0x1.c18f0e300968bp-5}, {71, 116, -0x1.0b48e930fe957p-4}, {71, 115, 0x1.c18f0e300968bp-5}, {71, 1, 0x1.d2c3e62067a57p-14}};
