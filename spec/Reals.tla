-------------------------------- MODULE Reals --------------------------------
(* Generated by tools/gen_reals.py. *)
Reals == [
  x00000000 |-> "0",
  x0000000000000000 |-> "0",
  x0000000000000002 |-> "9.8813129168249309e-324",
  x0000000000000003 |-> "1.4821969375237396e-323",
  x0000000000000610 |-> "7.6678988234561464e-321",
  x00000001 |-> "1.4012985e-45",
  x000000019873b980 |-> "3.3856778489493654e-314",
  x00000002 |-> "2.8025969e-45",
  x00000003 |-> "4.2038954e-45",
  x0000000d |-> "1.821688e-44",
  x00000026 |-> "5.3249342e-44",
  x0000fd0e |-> "9.0778917e-41",
  x0008000000000000 |-> "1.1125369292536007e-308",
  x000fffffffffffff |-> "2.2250738585072009e-308",
  x0010000000000000 |-> "2.2250738585072014e-308",
  x007fffff |-> "1.1754942e-38",
  x00bfff38e33ec77e |-> "4.5565186063384579e-305",
  x00cb989363332d07 |-> "7.8596013918265409e-305",
  x02800000 |-> "1.880791e-37",
  x04cbc252 |-> "4.7903526e-36",
  x054b9495d84c3e79 |-> "3.7094953385780683e-283",
  x0b000000 |-> "2.4651903e-32",
  x0d599f98671d5d8d |-> "2.3454199330701932e-244",
  x0da24260 |-> "1e-30",
  x0e0227549e1f5f7e |-> "3.4031185549787674e-241",
  x0e1eb892dca2659d |-> "1.1518043055872572e-240",
  x0e5f6db1cd783274 |-> "1.8853285108459567e-239",
  x0ef6ac255025d8ea |-> "1.3927134231956949e-236",
  x1020f710 |-> "3.1744766e-29",
  x15f20fd7060931a9 |-> "5.7608392579118478e-203",
  x17ef995d289f2aad |-> "2.1643485627364699e-193",
  x18e6e58ae9698f1b |-> "1.0277907138472769e-188",
  x199a24273cd5206d |-> "2.4031926856129634e-185",
  x19d0000000000000 |-> "2.3534373682645353e-184",
  x1de0000000000000 |-> "8.6826513651760839e-165",
  x25589040 |-> "1.8783887e-16",
  x27e4d558 |-> "6.351402e-15",
  x28ff11e97f0c08c9 |-> "3.2298506041294285e-111",
  x2b800000 |-> "9.094947e-13",
  x2ba0000000000000 |-> "1.463023860841312e-98",
  x2e7de368 |-> "5.7727517e-11",
  x2ea92abdaa7c98aa |-> "6.4774179155404904e-84",
  x2ed4d8400f3e0739 |-> "4.2919774037519679e-83",
  x2edbe6ff |-> "1e-10",
  x2fc52ffe |-> "3.5868192e-10",
  x37000000 |-> "7.6293945e-6",
  x37761e968d3fe030 |-> "1.5869951997079595e-41",
  x377c36c09c37d74b |-> "2.0242463646952975e-41",
  x38db5d65dc83501b |-> "8.2348056520226265e-35",
  x39b4484bfeebc2a0 |-> "1.0000000000000001e-30",
  x3a1af80483ededfc |-> "8.5098587556875763e-29",
  x3aa1afeec1e57e8a |-> "2.8575272368016867e-26",
  x3b75a2af |-> "3.7481e-3",
  x3d70000000000000 |-> "9.0949470177292824e-13",
  x3dcccccd |-> "1e-1",
  x3ddb7cdfd9d7bdbb |-> "1e-10",
  x3e871966964f6876 |-> "1.7210261229924648e-7",
  x3eaaaaab |-> "3.3333334e-1",
  x3ece7ea6 |-> "4.0331e-1",
  x3f000000 |-> "5e-1",
  x3f800000 |-> "1",
  x3fc0000000000000 |-> "1.25e-1",
  x3fd480f12c27a637 |-> "3.2036999999999999e-1",
  x3fe0000000000000 |-> "5e-1",
  x3ff0000000000000 |-> "1",
  x40000000 |-> "2",
  x4000000000000000 |-> "2",
  x400205436b8f9b13 |-> "2.25257",
  x4014b1704ff4341a |-> "5.1732800000000001",
  x4028ae147ae147ae |-> "1.234e+1",
  x4056e271de69ad43 |-> "9.1538200000000003e+1",
  x4059000000000000 |-> "1e+2",
  x406fe00000000000 |-> "2.55e+2",
  x407cb09f |-> "3.9482801",
  x4082b40e56041893 |-> "5.9850699999999995e+2",
  x40dce79333333333 |-> "2.9598299999999999e+4",
  x40df4f4000000000 |-> "3.2061e+4",
  x40f0000000000000 |-> "6.5536e+4",
  x40f45d3e66666666 |-> "8.3411899999999994e+4",
  x40f4b1fe66666666 |-> "8.4767899999999994e+4",
  x4101ea0000000000 |-> "1.46752e+5",
  x4113699400000000 |-> "3.18053e+5",
  x414570a4 |-> "1.234e+1",
  x4202a05f20000000 |-> "1e+10",
  x425eb7e9 |-> "5.56796e+1",
  x42c80000 |-> "1e+2",
  x43689cab6915eab9 |-> "5.5421275659523528e+16",
  x437f0000 |-> "2.55e+2",
  x444e3f9e |-> "8.2499402e+2",
  x45000000 |-> "2.048e+3",
  x45cf535c |-> "6.6344199e+3",
  x46147900 |-> "9.50225e+3",
  x46293e5939a08cea |-> "1e+30",
  x47800000 |-> "6.5536e+4",
  x47f12065 |-> "1.2345679e+5",
  x48000000 |-> "1.31072e+5",
  x48728096b977a685 |-> "1.0073610230866568e+41",
  x49125050 |-> "5.99301e+5",
  x4944d8e0 |-> "8.06286e+5",
  x49fd0a6048b0b101 |-> "2.6526740371283153e+48",
  x4b121e9e27d011f7 |-> "4.3387824014957115e+53",
  x4da91311 |-> "3.5457488e+8",
  x4f62f4937ffadedb |-> "2.6792999891720863e+74",
  x501502f9 |-> "1e+10",
  x50eaf92a2abf4715 |-> "6.3965075908082837e+81",
  x5140000000000000 |-> "2.4283361152821613e+83",
  x51800000 |-> "6.8719477e+10",
  x5242d5589b607a4a |-> "1.8732558255306794e+88",
  x53390d7e |-> "7.9479531e+11",
  x53ad07e6 |-> "1.4863237e+12",
  x570edfc4035d4df7 |-> "2.3202912818931795e+111",
  x5bcd7992 |-> "1.1567208e+17",
  x5caa663b7191aa35 |-> "2.4560724359796435e+138",
  x5d6dddbc |-> "1.0712539e+18",
  x605e63ee |-> "6.4099654e+19",
  x60968e11 |-> "8.6789018e+19",
  x61000000 |-> "1.4757395e+20",
  x6182952357802ff1 |-> "5.2250864290186776e+161",
  x63e0000000000000 |-> "1.2366520073655227e+173",
  x650e31f2decdab5b |-> "6.1179242187437179e+178",
  x66869e6e |-> "3.1785981e+23",
  x6857bb16511f98a9 |-> "4.3308163256860376e+194",
  x6950000000000000 |-> "1.9136262932255244e+199",
  x6a20000000000000 |-> "1.5676426594103496e+203",
  x6e27c66039571111 |-> "4.2970026071942664e+222",
  x7149f2ca |-> "1e+30",
  x73e768ffdca0d699 |-> "2.0951286099383969e+250",
  x73fcd3d68e1280fe |-> "5.1599236922130506e+250",
  x75971642 |-> "3.8305091e+32",
  x75da671d |-> "5.5371685e+32",
  x771dddb17b19660e |-> "6.0188441708567502e+265",
  x7a87099c72b5e114 |-> "1.6727156568549019e+282",
  x7b000000 |-> "6.64614e+35",
  x7b21ef2ecb49a2b1 |-> "1.333430944879783e+285",
  x7b28b0dbc8fedcbb |-> "1.8357858434922293e+285",
  x7b319d00b61e5d44 |-> "2.6191263174264389e+285",
  x7d264a39e0ca3f1b |-> "7.1179475239395981e+294",
  x7d800000 |-> "2.1267648e+37",
  x7f754b6d |-> "3.2605249e+38",
  x7f7fffff |-> "3.4028235e+38",
  x7f800000 |-> "inf",
  x7fc00000 |-> "nan",
  x7fefffffffffffff |-> "1.7976931348623157e+308",
  x7ff0000000000000 |-> "inf",
  x7ff8000000000000 |-> "nan",
  x80000000 |-> "-0",
  x8000000000000000 |-> "-0",
  x8000000000000193 |-> "-1.9910845527402236e-321",
  x8000000000001cac |-> "-3.6264418404747496e-320",
  x80000000001b2d11 |-> "-8.7993536183407267e-318",
  x800000004ec6fd4d |-> "-6.5298868930737467e-315",
  x80000000ca3e699b |-> "-1.6764081642155533e-314",
  x80000001 |-> "-1.4012985e-45",
  x80000009 |-> "-1.2611686e-44",
  x800000153ca9341f |-> "-4.5064733031658146e-313",
  x80000017 |-> "-3.2229865e-44",
  x800002a5db611e0f |-> "-1.4384095961434849e-311",
  x80000566 |-> "-1.9365945e-42",
  x800009fe |-> "-3.5845215e-42",
  x80000e46 |-> "-5.1203446e-42",
  x80000f02 |-> "-5.3837887e-42",
  x8000119d |-> "-6.3184548e-42",
  x80004a32 |-> "-2.6616263e-41",
  x8000c706c3850b73 |-> "-1.0811730622152859e-309",
  x8008c658 |-> "-8.058363e-40",
  x805dfcb0 |-> "-8.6313483e-39",
  x81da9b3b7c8e53d9 |-> "-9.9323052616575726e-300",
  x82d88a9461aca4f2 |-> "-6.0040222570456868e-295",
  x84000000 |-> "-1.5046328e-36",
  x84383462b4840cc4 |-> "-2.4837199799406191e-288",
  x84b4ce88 |-> "-4.2507466e-36",
  x84e0000000000000 |-> "-3.3624365476236298e-285",
  x8520000000000000 |-> "-5.3798984761978077e-284",
  x85487448cca9a5a5 |-> "-3.2890326521831109e-283",
  x8660000000000000 |-> "-5.6412324245775924e-278",
  x899e2ca4b0f5956f |-> "-2.3956438838721822e-262",
  x8a000000 |-> "-6.1629758e-33",
  x8fb5ac5acf7bcccb |-> "-5.4531521961111114e-233",
  x90d181da410264e9 |-> "-1.1547311626680608e-227",
  x91ceab92 |-> "-3.2606808e-28",
  x9227d06d4f53091c |-> "-3.2940380203706074e-221",
  x9321b4ce115bca15 |-> "-1.6050929700233913e-216",
  x9470000000000000 |-> "-3.0417465060722557e-210",
  x96000000 |-> "-1.0339758e-25",
  x969f6e02 |-> "-2.575726e-25",
  x97800000 |-> "-8.2718061e-25",
  x98cecfca84d0dc56 |-> "-3.4577068504269538e-189",
  x99800000 |-> "-1.323489e-23",
  x9ad17000 |-> "-8.662132e-23",
  x9b18b8a0 |-> "-1.2632801e-22",
  x9b39ca5a070717d9 |-> "-1.5911138445287906e-177",
  x9b8ef508f585e2ac |-> "-6.1115837662144622e-176",
  x9bb5cb1c465a4f53 |-> "-3.4419735294563032e-175",
  x9c1df301d94278a3 |-> "-3.0272508737396657e-173",
  x9d89a090 |-> "-3.6429616e-21",
  x9f20000000000000 |-> "-9.1044198378908774e-159",
  xa211ebfc69b34504 |-> "-1.4352389355043353e-144",
  xa420000000000000 |-> "-1.1006568214637918e-134",
  xa590000000000000 |-> "-9.2329786177857358e-128",
  xa7000000 |-> "-1.7763568e-15",
  xa853582eb8558921 |-> "-1.9638048677061496e-114",
  xa95f1b28ba4dcbef |-> "-2.0695075449596e-109",
  xad93ba820ce0a7e0 |-> "-3.8739712286556365e-89",
  xae90000000000000 |-> "-2.0590230357872116e-84",
  xaf746af7 |-> "-2.2229672e-10",
  xb15de681febb3238 |-> "-6.7692154376030842e-71",
  xb59088d6ff3e6c60 |-> "-1.1048227467781858e-50",
  xb6f8660bd27afab2 |-> "-6.8379491568223578e-44",
  xb900000000000000 |-> "-3.8518598887744717e-34",
  xba800000 |-> "-9.765625e-4",
  xbbf0ccdd108cfdff |-> "-5.6921454918256673e-20",
  xbe800000 |-> "-2.5e-1",
  xbf0beb5b |-> "-5.4655999e-1",
  xbf419a9a |-> "-7.5626528e-1",
  xbf800000 |-> "-1",
  xbff0000000000000 |-> "-1",
  xc008c34c1a8ac5c1 |-> "-3.0953599999999999",
  xc00efe86833c6003 |-> "-3.8742800000000002",
  xc013ee33eff19503 |-> "-4.9826199999999998",
  xc01f74a2339c0ebf |-> "-7.8639000000000001",
  xc028ae147ae147ae |-> "-1.234e+1",
  xc050b74f0d844d01 |-> "-6.6864199999999997e+1",
  xc06fe00000000000 |-> "-2.55e+2",
  xc07f92189374bc6a |-> "-5.0513099999999997e+2",
  xc081d8916872b021 |-> "-5.7107100000000003e+2",
  xc0a9a00000000000 |-> "-3.28e+3",
  xc0a9f4d70a3d70a4 |-> "-3.3224200000000001e+3",
  xc0c080accccccccd |-> "-8.4493500000000004e+3",
  xc11c887800000000 |-> "-4.67486e+5",
  xc124742200000000 |-> "-6.70225e+5",
  xc14570a4 |-> "-1.234e+1",
  xc1d3cbf59c494cf9 |-> "-1.328535153145323e+9",
  xc3483333 |-> "-2.002e+2",
  xc37f0000 |-> "-2.55e+2",
  xc51149d0b6ea8a5c |-> "-5.2250804474912247e+24",
  xc553aca4 |-> "-3.38679e+3",
  xc59d96c3 |-> "-5.0428452e+3",
  xc5b2a6cd |-> "-5.7168501e+3",
  xc5d75629 |-> "-6.89077e+3",
  xc6146629 |-> "-9.49754e+3",
  xc6acf65d9f5d307d |-> "-2.9371328582297452e+32",
  xc71ae733 |-> "-3.9655199e+4",
  xc71f6e33 |-> "-4.0814199e+4",
  xc7737733 |-> "-6.2327199e+4",
  xc826a938ed8c4860 |-> "-3.8555735951088964e+39",
  xc8314780 |-> "-1.81534e+5",
  xc9160d30 |-> "-6.14611e+5",
  xca594f2e6dafed2d |-> "-1.4795834637420252e+50",
  xcb00000000000000 |-> "-1.9156194260823611e+53",
  xcb1fb869 |-> "-1.0467433e+7",
  xcbe577fa99705ef4 |-> "-4.2112815813775431e+57",
  xd1008ecef3fbc821 |-> "-1.5706255414915991e+82",
  xd2167d76cc08d755 |-> "-2.7962115774089588e+87",
  xd583408f7c6acd0e |-> "-8.6239980069710317e+103",
  xd6935e44983bbe81 |-> "-1.1371780676209625e+109",
  xd84866030a979439 |-> "-1.9226984282281154e+117",
  xda2b1fc8930be6c9 |-> "-2.2951147622657769e+126",
  xdad08fad |-> "-2.9352384e+16",
  xdd478bf0929cd181 |-> "-2.2432460946772931e+141",
  xddc5f594 |-> "-1.7830588e+18",
  xdf909823c4b7ad97 |-> "-2.172784478414959e+152",
  xdfa0000000000000 |-> "-4.1899399781070616e+152",
  xe07e278a9f985a17 |-> "-6.4688831067976891e+156",
  xe1000000 |-> "-1.4757395e+20",
  xe2b8e1256cb480bb |-> "-3.6677426756434445e+167",
  xe6df1faa |-> "-5.2683591e+23",
  xebb0000000000000 |-> "-5.2601359015483735e+210",
  xee3cd299 |-> "-1.4609445e+28",
  xef42b8ea79a61461 |-> "-8.8704689486949131e+227",
  xef8cfaa5 |-> "-8.7261824e+28",
  xf0523c96e1f9cc93 |-> "-1.1325108572957843e+233",
  xf1d4e27af20a195a |-> "-2.1759281927677914e+240",
  xf2234534f9e8a973 |-> "-6.4247451298845363e+241",
  xf23f95ad |-> "-3.7947254e+30",
  xf3800000 |-> "-2.028241e+31",
  xf69c1b26edf6ca65 |-> "-2.2125660258465619e+263",
  xf8c1ebe523b6438b |-> "-4.8475197563311819e+273",
  xfa7d5b5a5a205b26 |-> "-1.0657746211592869e+282",
  xfb49fd5eb1ec1714 |-> "-7.729432455619427e+285",
  xfd800000 |-> "-2.1267648e+37",
  xfe5e2d91 |-> "-7.3831302e+37",
  xff7fffff |-> "-3.4028235e+38",
  xff800000 |-> "-inf",
  xffcec2d6 |-> "nan",
  xffefffffffffffff |-> "-1.7976931348623157e+308",
  xfff0000000000000 |-> "-inf"]
=============================================================================
