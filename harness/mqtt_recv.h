#if T == 2
#if V == 4
"A2002 0000", "A2002 0104", "?2002 ....", "R2002 0206", "R2003 ....00", "R2001 0000", "R2000 0000", "R2202 0000", "?2002 .... 2002 0000", "R20ffffff ff7f 0000",
#else
"A2003 000000", "?2003 ....00", "A2008 0000 05 11........", "A2006 0100 03 21....", "A2005 0000 02 24..", "A2007 0000 04 120001 61", "A2008 0000 05 160002....",
"A200a 0000 07 260001 610001 61", "A2006 0000 03 160000", "A2006 0000 03 1f0000", "A2008 0000 05 2600000000", "R200b 0000 08 24..13....24..21", "A200b 0000 08 24..13....1f0000", "R2008 0000 05 7e........",
"R2007 0000 04 11........", "R2006 0000 02 21....", "R2007 0000 04 120002__", "R2007 0000 03 120001 61", "R2002 0000", "R2008 0000 04 160002....", "?2002 0000 00", "R2004 0000 0000", "R2006 0000 03 2400",
#endif
#elif T >= 4 && T <= 7
#define HH(x) (T == 4 ? "40" : T == 5 ? "50" : T == 6 ? "62" : "70") x
#if T == 4
#define Z "40"
#elif T == 5
#define Z "50"
#elif T == 6
#define Z "62"
#else
#define Z "70"
#endif
#if V == 4
"A" Z "02 __..", "?" Z "02 ....", "R" Z "02 0000", "R" Z "03 __..00", "R" Z "01 __..", "R" Z "00 __..", "R4102 __..", "R6002 __..", "?" Z "02 .... " Z "02 ....",
#else
"A" Z "02 __..", "A" Z "03 __..00", "?" Z "03 ......", "A" Z "04 __..0000", "?" Z "04 ......00", "A" Z "08 __..00 04 1f0001 61", "A" Z "0b __..00 07 260001 610001 61", "A" Z "07 __..00 03 1f0000", "R" Z "08 __..00 03 1f0001 61",
"R" Z "08 __..00 05 1f0001 61 1f..", "R" Z "08 __..00 04 1f0002__ ....", "R" Z "04 __..0001 1f0000", "R" Z "05 __..000000", "R" Z "03 __..05", "?" Z "02 .... ....",
#endif
#elif T == 9
#if V == 4
"A9003 __..00", "A9003 __..01", "A9004 __..0280", "?9003 ......", "?9004 ........", "R9002 __..", "R9003 __..03", "R9003 __..81", "R9003 0000 00", "?9003 ...... ....", "R9001 .... ..",
#else
"A9004 __..00 00", "?9004 ....00 ..", "A9006 __..00 0102 80", "A9008 __..04 1f0001 61 01", "A9007 __..03 1f0000 01", "R9003 __..00", "R9004 __..00 03", "R9008 __..03 1f0001 61 01", "R9007 __..04 1f0001 61", "R9004 __..01 00",
#endif
#elif T == 11
#if V == 4
"Ab002 __..", "?b002 ....", "Rb003 __..00", "Rb001 __..", "?b002 .... ....",
#else
"Ab004 __..00 00", "?b004 ....00 ..", "Ab006 __..00 008011", "Rb003 __..00", "Rb004 __..00 01", "Rb002 __..", "Ab008 __..04 1f0001 61 00",
#endif
#elif T == 8
#if V == 4
"A8206 __.. 00016100", "?8206 .... 000161..", "A8207 __.. 0002616102", "A820a __.. 00016101 00016102", "A820b __.. 00016101 0002 6161 02", "A820a __.. 0005 2b2f612f23 01", "A820a __.. 0001 61 01 0001 61 02", "R8205 __.. 000161 00", "R820a __.. 00016101 00026161 02",
"R8205 __.. 0000 00", "R8204 __.. 0000", "R8202 __..", "R8206 __.. 00026100 ....", "R8206 __.. 00016103", "R8206 __.. 00016104", "R8206 __.. 00016180", "R8206 0000 00016100", "R8207 __.. 0002 0061 00", "R8207 __.. 0002236100", "R8006 __.. 00016100",
"?8206 __..000161.. 8206 61..000161..",
#else
"A8207 __..00 0001 6100", "A8207 __..00 0001 610c", "A8207 __..00 0001 612e", "?8207 ....00 0001 61..", "A820b __..00 0001 610d 0001 6122", "R8206 __..00 0001 61 00", "R8207 __..00 0001 6130", "R8207 __..00 0001 6140",
"R820a __..02 0b8001 0001 6101", "R8207 __..00 000261 00 ..", "R8203 __..00",
#ifdef DEEP
"A8209 __..02 0b05 0001 6101", "A820a __..03 0b8001 0001 6101", "A820e __..07 26 0000 0002 6162 0001 610a",
#endif
#endif
#elif T == 10
#if V == 4
"Aa205 __.. 000161", "?a205 .... 000161", "Aa20a __.. 000161 0003612f61", "Aa208 __.. 0001 61 0001 61", "Ra205 __.. 000261 ..", "Ra204 __.. 0000", "Ra202 __..", "Ra205 0000 000161", "Ra206 __.. 0002 2361", "Ra003 __..00",
#else
"Aa206 __..00 0001 61", "Ra206 __..00 000261 ..", "?a206 ....00 0001 61", "Ra203 __..00",
#ifdef DEEP
"Aa20b __..05 2600000000 0001 61",
#endif
#endif
#elif T == 3
#if V == 4
"A3003 0001 61", "A3103 0001 61", "?3003 0001 ff", "?3004 0002 c3a5", "A3005 0001 61 ....", "A3205 0001 61 __..", "?3205 0001 61 ....", "A3d08 0003 612f62 __.. ..", "A3406 0001 61 __.. ..", "R3605 0001 61 __..", "R3803 0001 61", "R3002 0000", "R3003 0002 61 62", "R3005 0002 6123 ..",
"R3004 0002 2b61", "R3004 0002 6100", "R3204 0001 61 __ ..", "R3205 0001 61 0000", "?3003 0001 61 3003 0001 61", "R3001 00 01__", "A308500 0001 61 ....",
#else
"A3004 0001 61 00", "A3206 0001 61 __.. 00", "A3008 0001 61 02 01.. ....", "A3009 0001 61 05 02........", "A3009 0001 61 04 030001 61 ..", "A3009 0001 61 05 090002....", "A300b 0001 61 07 260001 610001 61", "A3007 0001 61 03 030000", "A3007 0001 61 03 090000", "A3009 0001 61 05 2600000000", "A300a 0001 61 06 26 0001 61 0000",
"A3007 0001 61 03 0b8001", "A3007 0001 61 03 23....", "A300f 0001 61 0a 01.. 09 0001 61 08 0001 61 ..", "R3008 0001 61 05 090002 ....", "R3009 0001 61 03 090002....", "R3008 0001 61 03 030001 61", "R3005 0001 61 02 01 ..", "R3005 0001 61 01 04", "R3003 0001 61", "?3004 0001 61 00 ....",
#endif
#elif T == 1
#if V == 4
"A100d 0004 4d515454 04 02 .... 0001 61", "A100c 0004 4d515454 04 00 .... 0000", "A1013 0004 4d515454 04 c2 .... 0001 61 0001 61 0001 61", "A1013 0004 4d515454 04 36 .... 0001 61 0001 61 0001 61", "A1012 0004 4d515454 04 0e .... 0001 61 0001 61 0000", "A1010 0004 4d515454 04 82 .... 0001 61 0001 61",
"R1010 0004 4d515454 04 42 .... 0001 61 0001 61", "R1010 0004 4d515454 04 c2 .... 0001 61 0001 61", "R100d 0004 4d515454 04 03 .... 0001 61", "R100d 0004 4d515454 04 0a .... 0001 61", "R1013 0004 4d515454 04 1e .... 0001 61 0001 61 0001 61", "R100d 0004 4d515454 06 02 .... 0001 61", "R100d 0004 4d515453 04 02 .... 0001 61",
"R100e 0004 4d515454 04 02 .... 0001 61 ..", "R100d 0004 4d515454 04 02 .... 0002__ ..", "R1010 0004 4d515454 04 82 .... 0001 61 0000 ..", "?100d 0004 4d515454 04 .. .... 0001 61", "R100f 0007 4d515454 ........", "R110d 0004 4d515454 04 02 .... 0001 61", "R1012 0004 4d515454 04 06 .... 0001 61 000123 0000",
"R1001 00 04", "R1002 0000 0000",
#elif V == 3
"A100f 0006 4d5149736470 03 02 .... 0001 61", "R100d 0004 4d515454 03 02 .... 0001 61", "A100f 0006 6d7149736470 03 02 .... 0001 61",
#else
"A100e 0004 4d515454 05 02 .... 00 0001 61", "A1013 0004 4d515454 05 02 .... 05 11........ 0001 61", "A1011 0004 4d515454 05 42 .... 00 0001 61 0001 61", "A101a 0004 4d515454 05 06 .... 05 2600000000 0001 61 00 0001 61 0001 61", "A1018 0004 4d515454 05 06 .... 00 0001 61 03 160000 0001 61 0001 61", "A1019 0004 4d515454 05 06 .... 00 0001 61 05 18........ 0001 61 0000", 
"R1012 0004 4d515454 05 02 .... 04 11........ 0001 61", "R1013 0004 4d515454 05 02 .... 05 11........ 0000 ..", "R100e 0004 4d515454 05 02 .... 01 0001 61",
#endif
#elif T == 12
"Ac000", "Rc001 ..", "Rc100", "?c000 ....",
#elif T == 13
"Ad000", "Rd001 ..", "Rd200",
#elif T == 14
#if V == 4
"Ae000", "Re001 00", "Re002 0000", "Re100",
#else
"Ae000", "Ae001 ..", "Ae002 ..00", "Ae007 .. 05 11........", "Ae006 .. 04 1f0001 61", "Ae005 .. 03 1f0000", "Re003 ..0000", "Re006 .. 03 1f0001 61", "Re006 .. 05 1f0001 61 ..", "Re006 .. 04 1f0002__ ..", "Re002 ..01 1f", "?e001 .. ....",
#endif
#else
"R0000", "R0000 0000", "Rf000", "Rf002 0000",
#endif
