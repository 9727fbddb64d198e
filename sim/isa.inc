// name, 6309 only, kind, immediate, direct, indexed, extended (-1: none)
{"neg", 0, K_NONE, -1, 0x00, 0x60, 0x70},
{"com", 0, K_NONE, -1, 0x03, 0x63, 0x73},
{"lsr", 0, K_NONE, -1, 0x04, 0x64, 0x74},
{"ror", 0, K_NONE, -1, 0x06, 0x66, 0x76},
{"asr", 0, K_NONE, -1, 0x07, 0x67, 0x77},
{"asl", 0, K_NONE, -1, 0x08, 0x68, 0x78},
{"lsl", 0, K_NONE, -1, 0x08, 0x68, 0x78},
{"rol", 0, K_NONE, -1, 0x09, 0x69, 0x79},
{"dec", 0, K_NONE, -1, 0x0a, 0x6a, 0x7a},
{"inc", 0, K_NONE, -1, 0x0c, 0x6c, 0x7c},
{"tst", 0, K_NONE, -1, 0x0d, 0x6d, 0x7d},
{"jmp", 0, K_NONE, -1, 0x0e, 0x6e, 0x7e},
{"clr", 0, K_NONE, -1, 0x0f, 0x6f, 0x7f},
{"nop", 0, K_INH, 0x12, -1, -1, -1},
{"sync", 0, K_INH, 0x13, -1, -1, -1},
{"lbra", 0, K_REL16, 0x16, -1, -1, -1},
{"lbsr", 0, K_REL16, 0x17, -1, -1, -1},
{"daa", 0, K_INH, 0x19, -1, -1, -1},
{"orcc", 0, K_IMM8, 0x1a, -1, -1, -1},
{"andcc", 0, K_IMM8, 0x1c, -1, -1, -1},
{"sex", 0, K_INH, 0x1d, -1, -1, -1},
{"exg", 0, K_PAIR, 0x1e, -1, -1, -1},
{"tfr", 0, K_PAIR, 0x1f, -1, -1, -1},
{"bra", 0, K_REL8, 0x20, -1, -1, -1},
{"brn", 0, K_REL8, 0x21, -1, -1, -1},
{"bhi", 0, K_REL8, 0x22, -1, -1, -1},
{"bls", 0, K_REL8, 0x23, -1, -1, -1},
{"bcc", 0, K_REL8, 0x24, -1, -1, -1},
{"bhs", 0, K_REL8, 0x24, -1, -1, -1},
{"bcs", 0, K_REL8, 0x25, -1, -1, -1},
{"blo", 0, K_REL8, 0x25, -1, -1, -1},
{"bne", 0, K_REL8, 0x26, -1, -1, -1},
{"beq", 0, K_REL8, 0x27, -1, -1, -1},
{"bvc", 0, K_REL8, 0x28, -1, -1, -1},
{"bvs", 0, K_REL8, 0x29, -1, -1, -1},
{"bpl", 0, K_REL8, 0x2a, -1, -1, -1},
{"bmi", 0, K_REL8, 0x2b, -1, -1, -1},
{"bge", 0, K_REL8, 0x2c, -1, -1, -1},
{"blt", 0, K_REL8, 0x2d, -1, -1, -1},
{"bgt", 0, K_REL8, 0x2e, -1, -1, -1},
{"ble", 0, K_REL8, 0x2f, -1, -1, -1},
{"leax", 0, K_NONE, -1, -1, 0x30, -1},
{"leay", 0, K_NONE, -1, -1, 0x31, -1},
{"leas", 0, K_NONE, -1, -1, 0x32, -1},
{"leau", 0, K_NONE, -1, -1, 0x33, -1},
{"pshs", 0, K_STKS, 0x34, -1, -1, -1},
{"puls", 0, K_STKS, 0x35, -1, -1, -1},
{"pshu", 0, K_STKU, 0x36, -1, -1, -1},
{"pulu", 0, K_STKU, 0x37, -1, -1, -1},
{"rts", 0, K_INH, 0x39, -1, -1, -1},
{"abx", 0, K_INH, 0x3a, -1, -1, -1},
{"rti", 0, K_INH, 0x3b, -1, -1, -1},
{"cwai", 0, K_IMM8, 0x3c, -1, -1, -1},
{"mul", 0, K_INH, 0x3d, -1, -1, -1},
{"swi", 0, K_INH, 0x3f, -1, -1, -1},
{"nega", 0, K_INH, 0x40, -1, -1, -1},
{"coma", 0, K_INH, 0x43, -1, -1, -1},
{"lsra", 0, K_INH, 0x44, -1, -1, -1},
{"rora", 0, K_INH, 0x46, -1, -1, -1},
{"asra", 0, K_INH, 0x47, -1, -1, -1},
{"asla", 0, K_INH, 0x48, -1, -1, -1},
{"lsla", 0, K_INH, 0x48, -1, -1, -1},
{"rola", 0, K_INH, 0x49, -1, -1, -1},
{"deca", 0, K_INH, 0x4a, -1, -1, -1},
{"inca", 0, K_INH, 0x4c, -1, -1, -1},
{"tsta", 0, K_INH, 0x4d, -1, -1, -1},
{"clra", 0, K_INH, 0x4f, -1, -1, -1},
{"negb", 0, K_INH, 0x50, -1, -1, -1},
{"comb", 0, K_INH, 0x53, -1, -1, -1},
{"lsrb", 0, K_INH, 0x54, -1, -1, -1},
{"rorb", 0, K_INH, 0x56, -1, -1, -1},
{"asrb", 0, K_INH, 0x57, -1, -1, -1},
{"aslb", 0, K_INH, 0x58, -1, -1, -1},
{"lslb", 0, K_INH, 0x58, -1, -1, -1},
{"rolb", 0, K_INH, 0x59, -1, -1, -1},
{"decb", 0, K_INH, 0x5a, -1, -1, -1},
{"incb", 0, K_INH, 0x5c, -1, -1, -1},
{"tstb", 0, K_INH, 0x5d, -1, -1, -1},
{"clrb", 0, K_INH, 0x5f, -1, -1, -1},
{"suba", 0, K_IMM8, 0x80, 0x90, 0xa0, 0xb0},
{"cmpa", 0, K_IMM8, 0x81, 0x91, 0xa1, 0xb1},
{"sbca", 0, K_IMM8, 0x82, 0x92, 0xa2, 0xb2},
{"subd", 0, K_IMM16, 0x83, 0x93, 0xa3, 0xb3},
{"anda", 0, K_IMM8, 0x84, 0x94, 0xa4, 0xb4},
{"bita", 0, K_IMM8, 0x85, 0x95, 0xa5, 0xb5},
{"lda", 0, K_IMM8, 0x86, 0x96, 0xa6, 0xb6},
{"ldaa", 0, K_IMM8, 0x86, 0x96, 0xa6, 0xb6},
{"sta", 0, K_NONE, -1, 0x97, 0xa7, 0xb7},
{"staa", 0, K_NONE, -1, 0x97, 0xa7, 0xb7},
{"eora", 0, K_IMM8, 0x88, 0x98, 0xa8, 0xb8},
{"adca", 0, K_IMM8, 0x89, 0x99, 0xa9, 0xb9},
{"ora", 0, K_IMM8, 0x8a, 0x9a, 0xaa, 0xba},
{"oraa", 0, K_IMM8, 0x8a, 0x9a, 0xaa, 0xba},
{"adda", 0, K_IMM8, 0x8b, 0x9b, 0xab, 0xbb},
{"cmpx", 0, K_IMM16, 0x8c, 0x9c, 0xac, 0xbc},
{"cpx", 0, K_IMM16, 0x8c, 0x9c, 0xac, 0xbc},
{"ldx", 0, K_IMM16, 0x8e, 0x9e, 0xae, 0xbe},
{"stx", 0, K_NONE, -1, 0x9f, 0xaf, 0xbf},
{"bsr", 0, K_REL8, 0x8d, -1, -1, -1},
{"jsr", 0, K_NONE, -1, 0x9d, 0xad, 0xbd},
{"subb", 0, K_IMM8, 0xc0, 0xd0, 0xe0, 0xf0},
{"cmpb", 0, K_IMM8, 0xc1, 0xd1, 0xe1, 0xf1},
{"sbcb", 0, K_IMM8, 0xc2, 0xd2, 0xe2, 0xf2},
{"addd", 0, K_IMM16, 0xc3, 0xd3, 0xe3, 0xf3},
{"andb", 0, K_IMM8, 0xc4, 0xd4, 0xe4, 0xf4},
{"bitb", 0, K_IMM8, 0xc5, 0xd5, 0xe5, 0xf5},
{"ldb", 0, K_IMM8, 0xc6, 0xd6, 0xe6, 0xf6},
{"ldab", 0, K_IMM8, 0xc6, 0xd6, 0xe6, 0xf6},
{"stb", 0, K_NONE, -1, 0xd7, 0xe7, 0xf7},
{"stab", 0, K_NONE, -1, 0xd7, 0xe7, 0xf7},
{"eorb", 0, K_IMM8, 0xc8, 0xd8, 0xe8, 0xf8},
{"adcb", 0, K_IMM8, 0xc9, 0xd9, 0xe9, 0xf9},
{"orb", 0, K_IMM8, 0xca, 0xda, 0xea, 0xfa},
{"orab", 0, K_IMM8, 0xca, 0xda, 0xea, 0xfa},
{"addb", 0, K_IMM8, 0xcb, 0xdb, 0xeb, 0xfb},
{"ldd", 0, K_IMM16, 0xcc, 0xdc, 0xec, 0xfc},
{"std", 0, K_NONE, -1, 0xdd, 0xed, 0xfd},
{"ldu", 0, K_IMM16, 0xce, 0xde, 0xee, 0xfe},
{"stu", 0, K_NONE, -1, 0xdf, 0xef, 0xff},
{"lbrn", 0, K_REL16, 0x1021, -1, -1, -1},
{"lbhi", 0, K_REL16, 0x1022, -1, -1, -1},
{"lbls", 0, K_REL16, 0x1023, -1, -1, -1},
{"lbcc", 0, K_REL16, 0x1024, -1, -1, -1},
{"lbhs", 0, K_REL16, 0x1024, -1, -1, -1},
{"lbcs", 0, K_REL16, 0x1025, -1, -1, -1},
{"lblo", 0, K_REL16, 0x1025, -1, -1, -1},
{"lbne", 0, K_REL16, 0x1026, -1, -1, -1},
{"lbeq", 0, K_REL16, 0x1027, -1, -1, -1},
{"lbvc", 0, K_REL16, 0x1028, -1, -1, -1},
{"lbvs", 0, K_REL16, 0x1029, -1, -1, -1},
{"lbpl", 0, K_REL16, 0x102a, -1, -1, -1},
{"lbmi", 0, K_REL16, 0x102b, -1, -1, -1},
{"lbge", 0, K_REL16, 0x102c, -1, -1, -1},
{"lblt", 0, K_REL16, 0x102d, -1, -1, -1},
{"lbgt", 0, K_REL16, 0x102e, -1, -1, -1},
{"lble", 0, K_REL16, 0x102f, -1, -1, -1},
{"swi2", 0, K_INH, 0x103f, -1, -1, -1},
{"cmpd", 0, K_IMM16, 0x1083, 0x1093, 0x10a3, 0x10b3},
{"cmpy", 0, K_IMM16, 0x108c, 0x109c, 0x10ac, 0x10bc},
{"ldy", 0, K_IMM16, 0x108e, 0x109e, 0x10ae, 0x10be},
{"sty", 0, K_NONE, -1, 0x109f, 0x10af, 0x10bf},
{"lds", 0, K_IMM16, 0x10ce, 0x10de, 0x10ee, 0x10fe},
{"sts", 0, K_NONE, -1, 0x10df, 0x10ef, 0x10ff},
{"swi3", 0, K_INH, 0x113f, -1, -1, -1},
{"cmpu", 0, K_IMM16, 0x1183, 0x1193, 0x11a3, 0x11b3},
{"cmps", 0, K_IMM16, 0x118c, 0x119c, 0x11ac, 0x11bc},
{"oim", 1, K_IMM8MEM, -1, 0x01, 0x61, 0x71},
{"aim", 1, K_IMM8MEM, -1, 0x02, 0x62, 0x72},
{"eim", 1, K_IMM8MEM, -1, 0x05, 0x65, 0x75},
{"tim", 1, K_IMM8MEM, -1, 0x0b, 0x6b, 0x7b},
{"sexw", 1, K_INH, 0x14, -1, -1, -1},
{"ldq", 1, K_IMM32, 0xcd, 0x10dc, 0x10ec, 0x10fc},
{"addr", 1, K_PAIR, 0x1030, -1, -1, -1},
{"adcr", 1, K_PAIR, 0x1031, -1, -1, -1},
{"subr", 1, K_PAIR, 0x1032, -1, -1, -1},
{"sbcr", 1, K_PAIR, 0x1033, -1, -1, -1},
{"andr", 1, K_PAIR, 0x1034, -1, -1, -1},
{"orr", 1, K_PAIR, 0x1035, -1, -1, -1},
{"eorr", 1, K_PAIR, 0x1036, -1, -1, -1},
{"cmpr", 1, K_PAIR, 0x1037, -1, -1, -1},
{"pshsw", 1, K_INH, 0x1038, -1, -1, -1},
{"pulsw", 1, K_INH, 0x1039, -1, -1, -1},
{"pshuw", 1, K_INH, 0x103a, -1, -1, -1},
{"puluw", 1, K_INH, 0x103b, -1, -1, -1},
{"negd", 1, K_INH, 0x1040, -1, -1, -1},
{"comd", 1, K_INH, 0x1043, -1, -1, -1},
{"lsrd", 1, K_INH, 0x1044, -1, -1, -1},
{"rord", 1, K_INH, 0x1046, -1, -1, -1},
{"asrd", 1, K_INH, 0x1047, -1, -1, -1},
{"lsld", 1, K_INH, 0x1048, -1, -1, -1},
{"asld", 1, K_INH, 0x1048, -1, -1, -1},
{"rold", 1, K_INH, 0x1049, -1, -1, -1},
{"decd", 1, K_INH, 0x104a, -1, -1, -1},
{"incd", 1, K_INH, 0x104c, -1, -1, -1},
{"tstd", 1, K_INH, 0x104d, -1, -1, -1},
{"clrd", 1, K_INH, 0x104f, -1, -1, -1},
{"comw", 1, K_INH, 0x1053, -1, -1, -1},
{"lsrw", 1, K_INH, 0x1054, -1, -1, -1},
{"rorw", 1, K_INH, 0x1056, -1, -1, -1},
{"rolw", 1, K_INH, 0x1059, -1, -1, -1},
{"decw", 1, K_INH, 0x105a, -1, -1, -1},
{"incw", 1, K_INH, 0x105c, -1, -1, -1},
{"tstw", 1, K_INH, 0x105d, -1, -1, -1},
{"clrw", 1, K_INH, 0x105f, -1, -1, -1},
{"subw", 1, K_IMM16, 0x1080, 0x1090, 0x10a0, 0x10b0},
{"cmpw", 1, K_IMM16, 0x1081, 0x1091, 0x10a1, 0x10b1},
{"sbcd", 1, K_IMM16, 0x1082, 0x1092, 0x10a2, 0x10b2},
{"andd", 1, K_IMM16, 0x1084, 0x1094, 0x10a4, 0x10b4},
{"bitd", 1, K_IMM16, 0x1085, 0x1095, 0x10a5, 0x10b5},
{"ldw", 1, K_IMM16, 0x1086, 0x1096, 0x10a6, 0x10b6},
{"stw", 1, K_NONE, -1, 0x1097, 0x10a7, 0x10b7},
{"eord", 1, K_IMM16, 0x1088, 0x1098, 0x10a8, 0x10b8},
{"adcd", 1, K_IMM16, 0x1089, 0x1099, 0x10a9, 0x10b9},
{"ord", 1, K_IMM16, 0x108a, 0x109a, 0x10aa, 0x10ba},
{"addw", 1, K_IMM16, 0x108b, 0x109b, 0x10ab, 0x10bb},
{"stq", 1, K_NONE, -1, 0x10dd, 0x10ed, 0x10fd},
{"band", 1, K_REGMEM, -1, 0x1130, -1, -1},
{"biand", 1, K_REGMEM, -1, 0x1131, -1, -1},
{"bor", 1, K_REGMEM, -1, 0x1132, -1, -1},
{"bior", 1, K_REGMEM, -1, 0x1133, -1, -1},
{"beor", 1, K_REGMEM, -1, 0x1134, -1, -1},
{"bieor", 1, K_REGMEM, -1, 0x1135, -1, -1},
{"ldbt", 1, K_REGMEM, -1, 0x1136, -1, -1},
{"stbt", 1, K_REGMEM, -1, 0x1137, -1, -1},
{"tfm", 1, K_TFM, 0x1138, -1, -1, -1},
{"bitmd", 1, K_IMM8, 0x113c, -1, -1, -1},
{"ldmd", 1, K_IMM8, 0x113d, -1, -1, -1},
{"come", 1, K_INH, 0x1143, -1, -1, -1},
{"dece", 1, K_INH, 0x114a, -1, -1, -1},
{"ince", 1, K_INH, 0x114c, -1, -1, -1},
{"tste", 1, K_INH, 0x114d, -1, -1, -1},
{"clre", 1, K_INH, 0x114f, -1, -1, -1},
{"comf", 1, K_INH, 0x1153, -1, -1, -1},
{"decf", 1, K_INH, 0x115a, -1, -1, -1},
{"incf", 1, K_INH, 0x115c, -1, -1, -1},
{"tstf", 1, K_INH, 0x115d, -1, -1, -1},
{"clrf", 1, K_INH, 0x115f, -1, -1, -1},
{"sube", 1, K_IMM8, 0x1180, 0x1190, 0x11a0, 0x11b0},
{"cmpe", 1, K_IMM8, 0x1181, 0x1191, 0x11a1, 0x11b1},
{"lde", 1, K_IMM8, 0x1186, 0x1196, 0x11a6, 0x11b6},
{"ste", 1, K_NONE, -1, 0x1197, 0x11a7, 0x11b7},
{"adde", 1, K_IMM8, 0x118b, 0x119b, 0x11ab, 0x11bb},
{"divd", 1, K_IMM8, 0x118d, 0x119d, 0x11ad, 0x11bd},
{"divq", 1, K_IMM16, 0x118e, 0x119e, 0x11ae, 0x11be},
{"muld", 1, K_IMM16, 0x118f, 0x119f, 0x11af, 0x11bf},
{"subf", 1, K_IMM8, 0x11c0, 0x11d0, 0x11e0, 0x11f0},
{"cmpf", 1, K_IMM8, 0x11c1, 0x11d1, 0x11e1, 0x11f1},
{"ldf", 1, K_IMM8, 0x11c6, 0x11d6, 0x11e6, 0x11f6},
{"stf", 1, K_NONE, -1, 0x11d7, 0x11e7, 0x11f7},
{"addf", 1, K_IMM8, 0x11cb, 0x11db, 0x11eb, 0x11fb},
