// generated by tools/gen_hard_trig.py: doubles and floats closest to multiples of pi/2 and pi/4, every binade
#pragma once
static const unsigned long long HARD_TRIG[] = {
0x3fd0000000000000,0x3fd0000000000001,0x3fdfffffffffffff,0x3fe0000000000000,0x3fe0000000000001,0x3fe921fb54442d18,0x3fe921fb54442d19,0x3fefffffffffffff,
0x3ff0000000000000,0x3ff0000000000001,0x3ff921fb54442d14,0x3ff921fb54442d16,0x3ff921fb54442d17,0x3ff921fb54442d18,0x3ff921fb54442d19,0x4000000000000000,
0x4000000000000001,0x4002d97c7f3321cc,0x4002d97c7f3321d2,0x400921fb54442d10,0x400921fb54442d14,0x400921fb54442d16,0x400921fb54442d18,0x400921fb54442d19,
0x400f6a7a2955385f,0x4010000000000000,0x4010000000000001,0x4012d97c7f3321c6,0x4012d97c7f3321cc,0x4012d97c7f3321cf,0x4012d97c7f3321d2,0x4015fdbbe9bba767,
0x4015fdbbe9bba775,0x401921fb54442d08,0x401921fb54442d10,0x401921fb54442d14,0x401921fb54442d18,0x401f6a7a2955385f,0x4020000000000000,0x4020000000000001,
0x4021475cc9eedf06,0x4022d97c7f3321c6,0x4022d97c7f3321cc,0x4022d97c7f3321d2,0x4022d97c7f3321d8,0x4025fdbbe9bba767,0x4025fdbbe9bba76e,0x4025fdbbe9bba775,
0x402921fb54442d08,0x402921fb54442d10,0x402921fb54442d18,0x402921fb54442d20,0x402dd85a7410f58d,0x402f6a7a2955385f,0x4030000000000000,0x4030000000000001,
0x40307e4cef4cbd98,0x4031475cc9eedee5,0x4031475cc9eedef0,0x4031475cc9eedefb,0x4031475cc9eedf06,0x4032d97c7f3321b4,0x4032d97c7f3321c0,0x4032d97c7f3321cc,
0x4032d97c7f3321d2,0x4032d97c7f3321d8,0x4035fdbbe9bba775,0x4036c6cbc45dc8de,0x403921fb54442cf0,0x403921fb54442d00,0x403921fb54442d10,0x403921fb54442d18,
0x403921fb54442d20,0x4039eb0b2ee64e81,0x403dd85a7410f58d,0x40407e4cef4cbd96,0x40407e4cef4cbd98,0x4041475cc9eedefb,0x4042d97c7f3321cc,0x4042d97c7f3321d0,
0x4042d97c7f3321d2,0x4043a28c59d5433b,0x40446b9c347764a4,0x4045fdbbe9bba775,0x4046c6cbc45dc8de,0x404921fb54442d10,0x404921fb54442d18,0x4049868341953dcd,
0x4049eb0b2ee64e81,0x40507e4cef4cbd96,0x40507e4cef4cbd98,0x4051abe4b73fefb3,0x4051abe4b73fefb6,0x4052d97c7f3321d0,0x4052d97c7f3321d2,0x4053a28c59d5433c,
0x40546b9c347764a4,0x4055cb77f3131f1b,0x4055fdbbe9bba775,0x4056c6cbc45dc8de,0x4058bd7366f31c64,0x405921fb54442d18,0x4059868341953dcd,0x4059eb0b2ee64e81,
0x405d0f4a996ed424,0x405e0a9e6ab97de7,0x405f6a7a29553860,0x40607e4cef4cbd96,0x40607e4cef4cbd98,0x4061475cc9eedf00,0x4061abe4b73fefb3,0x4062a738888a9978,
0x4062d97c7f3321d0,0x4062d97c7f3321d2,0x40637048632cbae0,0x40649de02b1fecfe,0x4064b7022674312b,0x4065cb77f3131f1b,0x4065fdbbe9bba775,0x4066c6cbc45dc8de,
0x406921fb54442d18,0x406bfad4cccfe634,0x406d0f4a996ed424,0x406e0a9e6ab97de7,0x407032e6fd4ff110,0x40707e4cef4cbd98,0x4071475cc9eedf00,0x40728e168d36554b,
0x4072a738888a9978,0x40742cc74024ba33,0x4074b7022674312b,0x4074d02421c87558,0x4075cb77f3131f1b,0x4076c6cbc45dc8de,0x407a042d2a3a92ae,0x407ae65f0030f844,
0x407b7099e6806f3c,0x407bfad4cccfe634,0x407d0f4a996ed424,0x40807e4cef4cbd98,0x4080b090e5f545f3,0x4081abe4b73fefb6,0x4082361f9d8f66ad,0x40828e168d36554b,
0x4082a738888a9978,0x40842cc74024ba33,0x4084d02421c87558,0x4086c6cbc45dc8de,0x40875106aaad3fd6,0x40891bb2d56f1c0d,0x408ae65f0030f844,0x408b7099e6806f3c,
0x408f6a7a29553860,0x4090525177794649,0x40907e4cef4cbd98,0x4090bd21e39f6809,0x40921cfda23b2280,0x409242b09b3988c4,0x40928e168d36554b,0x4092a738888a9978,
0x40942cc74024ba33,0x409494736ce0536d,0x4096c6cbc45dc8de,0x409858eb79a20bb0,0x40991bb2d56f1c0d,0x409ae65f0030f844,0x409b2b7c7358b3c0,0x409b7099e6806f3c,
0x409da2f23dfde4ad,0x40a0525177794649,0x40a157120703899d,0x40a192c2bbebab88,0x40a21cfda23b2280,0x40a23f8c5bcf003e,0x40a2a738888a9978,0x40a3444ceb594392,
0x40a3c51b136920f9,0x40a494736ce0536d,0x40a6a43d0ac9eb20,0x40a6c6cbc45dc8de,0x40ab5f5289b6805d,0x40ab7099e6806f3c,0x40ada2f23dfde4ad,0x40aed3ae455b9f50,
0x40afe691f24548fd,0x40b10887d59c3490,0x40b21cfda23b2280,0x40b23f8c5bcf003e,0x40b2621b1562ddfc,0x40b32998d04fbb22,0x40b4609d568286d0,0x40b4832c1016648e,
0x40b494736ce0536d,0x40b5a4fbea3a16b6,0x40b6c6cbc45dc8de,0x40b6faa1dabb957b,0x40bb5f5289b6805d,0x40bb7099e6806f3c,0x40bec4c2182196d5,0x40bfe691f24548fd,
0x40c0f353298d1b0a,0x40c0fb2dc8177058,0x40c1f2944a1cef74,0x40c21cfda23b2280,0x40c23f8c5bcf003e,0x40c4832c1016648e,0x40c5a4fbea3a16b6,0x40c635e3d74befca,
0x40c6c6cbc45dc8de,0x40c7f9e2fb4b69e5,0x40cb5f5289b6805d,0x40cec4c2182196d5,0x40cfe82411fa8d40,0x40cff7d94f0f37dc,0x40d06a45db059744,0x40d0fb2dc8177058,
0x40d21cfda23b2280,0x40d3615c35f2b266,0x40d4832c1016648e,0x40d5a4fbea3a16b6,0x40d635e3d74befca,0x40d67e57cdd4dc54,0x40d6c6cbc45dc8de,0x40dd120a50ec0b99,
0x40dec4c2182196d5,0x40e021d1e47caaba,0x40e0229af4574cdc,0x40e04880314c5ba8,0x40e06a45db059744,0x40e21cfda23b2280,0x40e2f29e7a876600,0x40e51413fd283da2,
0x40e5a4fbea3a16b6,0x40e635e3d74befca,0x40e65a1dd290660f,0x40e67e57cdd4dc54,0x40e6c6cbc45dc8de,0x40ef9e1dfbbc5c73,0x40f021d1e47caaba,0x40f0460bdfc120ff,
0x40f0dec1da5fa53f,0x40f21cfda23b2280,0x40f5a4fbea3a16b6,0x40f5ed6fe0c30340,0x40f635e3d74befca,0x40f65a1dd290660f,0x40f67e57cdd4dc54,0x40fbf9b3c6059d24,
0x41000565f6c4dfa1,0x410021d1e47caaba,0x4100460bdfc120ff,0x41007213e8924270,0x4100ba87df1b2efa,0x4100dec1da5fa53f,0x41021cfda23b2280,0x41039c6fd67805a7,
0x4104cba0069f5118,0x41055c87f3b12a2c,0x4105ed6fe0c30340,0x41067e57cdd4dc54,0x410917cbcea8c677,0x41093c05c9ed3cbc,0x4109fe880847255e,0x410bf9b3c6059d24,
0x41107213e8924270,0x4110ba87df1b2efa,0x4110dec1da5fa53f,0x41114b6fcc2d080e,0x41132fc1e4aaa2d8,0x41139c6fd67805a7,0x41142d57c389debb,0x4114fb46d48435db,
0x4115ed6fe0c30340,0x41167e57cdd4dc54,0x41170f3fbae6b568,0x411917cbcea8c677,0x41193c05c9ed3cbc,0x411bf9b3c6059d24,0x41207213e8924270,0x4120dec1da5fa53f,
0x412102fbd5a41b84,0x41214b6fcc2d080e,0x4121d0eae69e72a4,0x41239c6fd67805a7,0x41242d57c389debb,0x4124fb46d48435db,0x412543bacb0d2265,0x4125ed6fe0c30340,
0x41267e57cdd4dc54,0x41270f3fbae6b568,0x41293c05c9ed3cbc,0x4129eb7148f354d6,0x412bf9b3c6059d24,0x4130dec1da5fa53f,0x4132ed045771ed8d,0x41339c6fd67805a7,
0x4133c0a9d1bc7bec,0x4133f42595fb11b4,0x4134fb46d48435db,0x41367e57cdd4dc54,0x4138b0d4462b9ae7,0x41393c05c9ed3cbc,0x4139eb7148f354d6,0x413a9adcc7f96cf0,
0x413bf9b3c6059d24,0x41401a5e290f3663,0x41407213e8924270,0x4140dec1da5fa53f,0x4141e5e318e8c966,0x4142ed045771ed8d,0x41439c6fd67805a7,0x4143f42595fb11b4,
0x4145ed6fe0c30340,0x41467e57cdd4dc54,0x4147dd2ecbe10c88,0x41493c05c9ed3cbc,0x4149eb7148f354d6,0x414a9adcc7f96cf0,0x414d3ecce1f28274,0x4150a0c9fcfbe416,
0x4151e5e318e8c966,0x4152ed045771ed8d,0x415344ba16f4f99a,0x4153f42595fb11b4,0x4154e188f264eaf7,0x4157dd2ecbe10c88,0x41593c05c9ed3cbc,0x4159eb7148f354d6,
0x415a9adcc7f96cf0,0x415b951f1572eba5,0x415ce717226f7667,0x415d3ecce1f28274,0x4160a0c9fcfbe416,0x41612998a8d30bda,0x41624a77c97b7ae5,0x41627b90b5cf969c,
0x416344ba16f4f99a,0x4164456bdcf64b08,0x41651f80cfc8ac20,0x41669815aff42738,0x4169eb7148f354d6,0x416a9adcc7f96cf0,0x416b951f1572eba5,0x416ce717226f7667,
0x416d3ecce1f28274,0x417042a4c4f10550,0x4170f21043f71d6a,0x4171726926f7c621,0x4172954e97eee180,0x4173edb61d733efb,0x4174456bdcf64b08,0x4175ef19a975e1d7,
0x41769815aff42738,0x4177ea0dbcf0b1fa,0x4179eb7148f354d6,0x417b951f1572eba5,0x417d3ecce1f28274,0x417e6821cb71708c,0x417fe2bcfbeb97f8,0x4180a0c9fcfbe416,
0x4180f21043f71d6a,0x4181726926f7c621,0x4181f2c209f86ed8,0x41824a77c97b7ae5,0x4183c512f9f5a251,0x4184456bdcf64b08,0x4185ef19a975e1d7,0x41866f728c768a8e,
0x418683c41e3558e3,0x41869815aff42738,0x418a9adcc7f96cf0,0x418b951f1572eba5,0x418d3ecce1f28274,0x418e6821cb71708c,0x41903b322441dc6d,0x4190f21043f71d6a,
0x419150357c01fc30,0x4191726926f7c621,0x4191f2c209f86ed8,0x4193c512f9f5a251,0x4194311a4b377cb3,0x4194456bdcf64b08,0x419683c41e3558e3,0x41969815aff42738,
0x419956c6d433ddca,0x419b951f1572eba5,0x419e1dcc9111b506,0x41a0a0c9fcfbe416,0x41a1bcbe615781a7,0x41a1f2c209f86ed8,0x41a24a77c97b7ae5,0x41a4311a4b377cb3,
0x41a4456bdcf64b08,0x41a683c41e3558e3,0x41a90c7199d42244,0x41aa9adcc7f96cf0,0x41ab951f1572eba5,0x41ae1dcc9111b506,0x41b0b89415087152,0x41b19793c427a3e4,
0x41b1bcbe615781a7,0x41b31c16f3775cf0,0x41b3fb16a2968f82,0x41b4456bdcf64b08,0x41b55202aefde314,0x41b65e9981057b20,0x41b90c7199d42244,0x41ba635da63b75d6,
0x41bb951f1572eba5,0x41bdd37756b1f980,0x41bdf8a1f3e1d743,0x41be1dcc9111b506,0x41c0ec1dbdf3fa1b,0x41c19793c427a3e4,0x41c1bcbe615781a7,0x41c2a42a962f3bf0,
0x41c2c955335f19b3,0x41c4456bdcf64b08,0x41c55202aefde314,0x41c65e9981057b20,0x41c90c7199d42244,0x41ca635da63b75d6,0x41cb951f1572eba5,0x41cdd37756b1f980,
0x41ce1dcc9111b506,0x41d0ec1dbdf3fa1b,0x41d1546e0fa5bde1,0x41d19793c427a3e4,0x41d1bcbe615781a7,0x41d2c955335f19b3,0x41d4456bdcf64b08,0x41d4cbb745fa170e,
0x41d55202aefde314,0x41d5fd78b5318cdd,0x41d90c7199d42244,0x41daa6835abd5bd9,0x41db951f1572eba5,0x41dbba49b2a2c968,0x41dffb04067cd49e,0x41e0131094d7ead8,
0x41e04c8cc3c696f0,0x41e0b4dd15785ab6,0x41e0be869b0b94a1,0x41e0c6f320c41c58,0x41e1546e0fa5bde1,0x41e19793c427a3e4,0x41e1b58edb79ac24,0x41e4cbb745fa170e,
0x41e55202aefde314,0x41e56ec0c6753920,0x41e5c9508c58aafa,0x41e5fd78b5318cdd,0x41ea14146c70f180,0x41eaa6835abd5bd9,0x41eb1dd1381823bf,0x41eb951f1572eba5,
0x41ebba49b2a2c968,0x41edd37756b1f980,0x41f074cfe0993235,0x41f0b076cf469628,0x41f19793c427a3e4,0x41f55202aefde314,0x41f5c9508c58aafa,0x41f5fd78b5318cdd,
0x41f6409e69b372e0,0x41faa6835abd5bd9,0x41fb1dd1381823bf,0x420013fe54bbf07f,0x42004fa543695472,0x4200b076cf469628,0x4203013cbf223c9e,0x420374cb3992c37c,
0x42046366f4485348,0x42055202aefde314,0x4205c9508c58aafa,0x4206409e69b372e0,0x420851fe07f7745b,0x42097c40b15a681a,0x420aa6835abd5bd9,0x420b1dd1381823bf,
0x420dd37756b1f980,0x420de5e5054e921b,0x42103928f1ebce42,0x4210b076cf469628,0x4211d6fa15bf48df,0x4213013cbf223c9e,0x4213788a9c7d0484,0x42146366f4485348,
0x42146546a5bd73cc,0x42155202aefde314,0x4215c9508c58aafa,0x4216409e69b372e0,0x421855bd6ae1b563,0x421aa6835abd5bd9,0x421de5e5054e921b,0x42203928f1ebce42,
0x4223013cbf223c9e,0x4224299fb7100fd9,0x42246546a5bd73cc,0x4225c9508c58aafa,0x422855bd6ae1b563,0x422ae22a496abfcc,0x422c81db1eb35aed,0x422de5e5054e921b,
0x422e97e9f89c2db2,0x42302edaa1e79b6c,0x42303928f1ebce42,0x4230a538a687d310,0x4230b076cf469628,0x4231627bc29431bf,0x42319d32d8870570,0x4233013cbf223c9e,
0x42346546a5bd73cc,0x4236047f8ea8c6cc,0x4236409e69b372e0,0x423855bd6ae1b563,0x42397e984f2cd0bf,0x423a6bcc44ca8828,0x423c81db1eb35aed,0x423d9781280de900,
0x423de5e5054e921b,0x423e97e9f89c2db2,0x424013fe54bbf07f,0x42404fa543695472,0x4240b076cf469628,0x4241627bc29431bf,0x42417f9b575ef787,0x42419d32d8870570,
0x42421390dd273d14,0x42428a66ce24bcd9,0x42446546a5bd73cc,0x424516d3acadc742,0x4246047f8ea8c6cc,0x42463fae90f8e29e,0x4246409e69b372e0,0x424698ed00ce547a,
0x42481a167c345170,0x42497e984f2cd0bf,0x424bb23eaa3db16d,0x424daa3e16a12e28,0x424dd37756b1f980,0x424de5e5054e921b,0x4250383919313e00,0x425065c829d68730,
0x425107d58da6e780,0x42516203d636e99e,0x42517f9b575ef787,0x42519d32d8870570,0x4253d0d93397e61e,0x425447af249565e3,0x42546546a5bd73cc,0x425698ed00ce547a,
0x42572d5a72f3e228,0x42597e984f2cd0bf,0x4259f38e8eb53000,0x425bb23eaa3db16d,0x426065c829d68730,0x42616203d636e99e,0x4262996e84e767de,0x4263fd786b829f0c,
0x426447af249565e3,0x42646546a5bd73cc,0x426698ed00ce547a,0x42672d5a72f3e228,0x4267fcf6e7698ba8,0x426898ac3ec1cac8,0x4268cc935bdf3528,0x42697e984f2cd0bf,
0x426bb23eaa3db16d,0x426ffbf3df3764e0,0x42702a9927866b5e,0x427065c829d68730,0x4270835faafe9519,0x4271108537f17155,0x42719d32d8870570,0x4271fdb92d8f28be,
0x4272996e84e767de,0x4273fd786b829f0c,0x42746546a5bd73cc,0x42747f3a344c28fc,0x4275b300f0634e83,0x427898ac3ec1cac8,0x4278cc935bdf3528,0x42797e984f2cd0bf,
0x427bb23eaa3db16d,0x427cbd820d60bee0,0x427fcbb0b4b35339,0x427ffbf3df3764e0,0x428065c829d68730,0x4280835faafe9519,0x4280bb62a712a053,0x4280cd9664115bf0,
0x4280fdd98e956d97,0x4281875b28eef11a,0x42819d32d8870570,0x4281da6fca5271af,0x4281fdb92d8f28be,0x428272812f115816,0x4282996e84e767de,0x4282e7493093876e,
0x42847f3a344c28fc,0x4285b300f0634e83,0x4288cc935bdf3528,0x42897f103b8a18e0,0x428fcbb0b4b35339,0x428ffbf3df3764e0,0x42900451fc13d3a0,0x4290114bc35b2e38,
0x4290214352d8697f,0x42902a9927866b5e,0x429065c829d68730,0x42908f8e70b6eb8b,0x4290cd9664115bf0,0x4290fdd98e956d97,0x4291108537f17155,0x429114292a8aca0e,
0x42916c24ac73efa3,0x429188f12c0cf966,0x4291da6fca5271af,0x4291fdb92d8f28be,0x429272812f115816,0x4299f38e8eb53000,0x429cbd820d60bee0,0x429e5cbaf64c11e0,
0x429f2c576ac1bb60,0x429fcbb0b4b35339,0x429ffbf3df3764e0,0x42a00172e911664d,0x42a0031d0e7c3db6,0x42a0044bda1bbae0,0x42a00451fc13d3a0,0x42a006c10115966f,
0x42a00acedfb780ec,0x42a065c829d68730,0x42a08f8e70b6eb8b,0x42a0fdd98e956d97,0x42a16c24ac73efa3,0x42a188f12c0cf966,0x42a1fdb92d8f28be,0x42a6c78852a49800,
0x42a9f38e8eb53000,0x42ad1f94cac5c800,0x42af2c576ac1bb60,0x42afc87242e17c93,0x42afcbb0b4b35339,0x42affbf3df3764e0,0x42b0008b56807102,0x42b001138a41fcfa,
0x42b00172e911664d,0x42b0029945fbc16f,0x42b0044bda1bbae0,0x42b00451fc13d3a0,0x42b031e10cb91cd0,0x42b065c829d68730,0x42b06f7bda836800,0x42b0fdd98e956d97,
0x42b134ff1d84ae9d,0x42b16c24ac73efa3,0x42b1fdb92d8f28be,0x42b6c78852a49800,0x42b9f38e8eb53000,0x42bfc6d309f89140,0x42bfc87242e17c93,0x42bffbf3df3764e0,
0x42c00063289cc200,0x42c000bb7c4d6ac0,0x42c000d1df2f271a,0x42c001138a41fcfa,0x42c001f5346ed400,0x42c002b2c32ae84d,0x42c031e10cb91cd0,0x42c04bd49b47d200,
0x42c065c829d68730,0x42c07fbbb8653c60,0x42c103b996286643,0x42c134ff1d84ae9d,0x42c15091e4fc4f20,0x42c16c24ac73efa3,0x42c39b8216940000,0x42c9f38e8eb53000,
0x42cbada499468000,0x42cf42d52c35675d,0x42cfc6d309f89140,0x42d001138a41fcfa,0x42d002b2c32ae84d,0x42d017ed7e2a67a0,0x42d04bd49b47d200,0x42d063269415652a,
0x42d065c829d68730,0x42d07fbbb8653c60,0x42d098acea1bbadd,0x42d0ce3340221090,0x42d0e246c71dcd14,0x42d103b996286643,0x42d16c24ac73efa3,0x42d43e0ae1df09b4,
0x42d64ac3e719da9a,0x42d7512069b7430d,0x42d9f38e8eb53000,0x42df42d52c35675d,0x42dfc80cc219fa80,0x42e02cb4f3f60087,0x42e02e05bed6918a,0x42e065c829d68730,
0x42e070d44a2c9c25,0x42e0b3a2d582a6c0,0x42e0f1e2242649b2,0x42e16c24ac73efa3,0x42e43e0ae1df09b4,0x42e54467647c7227,0x42e64ac3e719da9a,0x42e7512069b7430d,
0x42e8577cec54ab80,0x42e8a5a606092560,0x42f027d7493b3e8e,0x42f065c829d68730,0x42f10d9c22a2175d,0x42f13b412ea2182d,0x42f16c24ac73efa3,0x42f23151dca438ce,
0x42f43e0ae1df09b4,0x42f64ac3e719da9a,0x42f7512069b7430d,0x42f8577cec54ab80,0x42fb49facaf65535,0x42fcb89b2cdb19e0,0x42fe5d1052ce8e8e,0x43002498d76967e8,
0x43013b412ea2182d,0x430210ba336da92a,0x4302419db13f80a0,0x43042dbf0d43c1e2,0x43043e0ae1df09b4,0x43044630cc2cad9d,0x43051383e6aa9ab1,0x43064ac3e719da9a,
0x4307512069b7430d,0x4308164d99e78c38,0x4308577cec54ab80,0x43094d8d9a56cc21,0x43102498d76967e8,0x43113b412ea2182d,0x4312292bf25694e5,0x4312419db13f80a0,
0x43144630cc2cad9d,0x43154c8d4eca1610,0x4315cba89af1f855,0x4317512069b7430d,0x4318577cec54ab80,0x431c60a3222f057a,0x432060e5983b3f92,0x432065c829d68730,
0x4320bc25e27a35e8,0x4320e826ceb0c5c0,0x43213b412ea2182d,0x43216c24ac73efa3,0x4322419db13f80a0,0x4322c0b8fd6762e5,0x43238374e4ca0841,0x43244630cc2cad9d,
0x432508ecb38f52f9,0x4325cba89af1f855,0x4328577cec54ab80,0x43301d44fd007c7b,0x433060e5983b3f92,0x43306284d1242ae5,0x4330bc25e27a35e8,0x4330e1a01d4c0d2a,
0x4330e826ceb0c5c0,0x43317ee1c9dcdb44,0x43338374e4ca0841,0x43344630cc2cad9d,0x433508ecb38f52f9,0x43356a4aa740a5a7,0x4335cba89af1f855,0x4338577cec54ab80,
0x433fc6d309f89140,0x434021c36d89ed80,0x434047a6b04e2100,0x43405ac7eec8e33a,0x4340bc25e27a35e8,0x4342f1a16219c000,0x4344a78ebfde004b,0x434508ecb38f52f9,
0x43456a4aa740a5a7,0x43459af9a1194efe,0x4345cba89af1f855,0x4348577cec54ab80,0x43500811afe96766,0x43500ed1cc27d3c0,0x435021c36d89ed80,0x435025cf085ff6fd,
0x43502a18f4f039e3,0x43505ac7eec8e33a,0x4352f1a16219c000,0x435508ecb38f52f9,0x4355399bad67fc50,0x43556a4aa740a5a7,0x43559af9a1194efe,0x4358577cec54ab80,
0x435dbd58768f9700,0x43601be3bbe6a693,0x43602a18f4f039e3,0x43605ac7eec8e33a,0x436476dfc60556f4,0x4364d83db9b6a9a2,0x4365399bad67fc50,0x43656a4aa740a5a7,
0x43659af9a1194efe,0x4368577cec54ab80,0x436ae9608c734e12,0x436eb24fa908026e,0x436f445c9691fe73,0x436fd669841bfa78,0x43701be3bbe6a693,0x43707d41af97f941,
0x4373b423dea2b198,0x437476dfc60556f4,0x4375399bad67fc50,0x43759af9a1194efe,0x4375fc5794caa1ac,0x4378a12cd64b5dfe,0x43799497b786acb1,0x437a880298c1fb64,
0x437ae9608c734e12,0x437d909402204d9c,0x43804c92b5bf4fea,0x43822eac0fdd66e0,0x4382926837bafcc6,0x4384748191d913bc,0x4385399bad67fc50,0x43859af9a1194efe,
0x438872dc109ef7df,0x438ae9608c734e12,0x438c3cfa4749cdd7,0x438d909402204d9c,0x439015f83977fe87,0x43910834009d2b9e,0x43913ece7ce47d01,0x4392926837bafcc6,
0x4394d8d546c1ba70,0x4395399bad67fc50,0x43959af9a1194efe,0x4398422d16c64e88,0x439ae9608c734e12,0x439c3cfa4749cdd7,0x439d909402204d9c,0x439e4778e4a5a2e0,
0x43a10eb71016e478,0x43a231a1d114bae6,0x43a4780ee01b7890,0x43a4d8d546c1ba70,0x43a62c6f01983a35,0x43a8422d16c64e88,0x43aae9608c734e12,0x43ab4abe8024a0c0,
0x43ac3cfa4749cdd7,0x43ad909402204d9c,0x43af453fea2297a8,0x43b10eb71016e478,0x43b16f7d76bd2658,0x43b231a1d114bae6,0x43b2c362f8192e84,0x43b4d8d546c1ba70,
0x43b539e773ed84b7,0x43b5cb5cd46c6fee,0x43b62c6f01983a35,0x43b8422d16c64e88,0x43ba0f0a9872290c,0x43bb4abe8024a0c0,0x43bc3cfa4749cdd7,0x43bd909402204d9c,
0x43bf453fea2297a8,0x43c01b0068560d5e,0x43c034611c15bf72,0x43c094442f2b681d,0x43c10eb71016e478,0x43c13ece7ce47d01,0x43c16f7d76bd2658,0x43c231a1d114bae6,
0x43c23dba9de98322,0x43c2926837bafcc6,0x43c39d6d2594cb23,0x43c4d8d546c1ba70,0x43c5399bad67fc50,0x43c539e773ed84b7,0x43c8422d16c64e88,0x43ca0f0a9872290c,
0x43cb4abe8024a0c0,0x43cc3cfa4749cdd7,0x43ce50f1b556afc0,0x43ced814f0220525,0x43d034611c15bf72,0x43d043bb70a7641b,0x43d098b4d0fe6626,0x43d0a18c161651f5,
0x43d0a74cb5fb2dac,0x43d0f02d497d677b,0x43d13ece7ce47d01,0x43d16f7d76bd2658,0x43d187af1066b6d0,0x43d23dba9de98322,0x43d2926837bafcc6,0x43d34873c53dc918,
0x43d39d6d2594cb23,0x43d4d8d546c1ba70,0x43d5399bad67fc50,0x43d53e5815c082c0,0x43db4abe8024a0c0,0x43dc0c4b4d712480,0x43ded814f0220525,0x43e01cc70f773fc8,
0x43e033c98f0aaea4,0x43e034611c15bf72,0x43e04e0d965af9ed,0x43e083e5a30d6e2d,0x43e0a18c161651f5,0x43e0a700ef75a545,0x43e0a74cb5fb2dac,0x43e0af1fc386c434,
0x43e0f02d497d677b,0x43e187af1066b6d0,0x43e23dba9de98322,0x43e4d8d546c1ba70,0x43e8448b4af291c0,0x43e9c7a4e58b9940,0x43ea7f3bc5a7ed9e,0x43eb4abe8024a0c0,
0x43ebccc91a140945,0x43ec0c4b4d712480,0x43eccdd81abda840,0x43eed814f0220525,0x43f06dd6e908768f,0x43f0f02d497d677b,0x43f14b33103ecda4,0x43f23dba9de98322,
0x43f4d8d546c1ba70,0x43f5490673f77f02,0x43f7e4211ccfb650,0x43f931ae713bd1f7,0x43fa7f3bc5a7ed9e,0x43fbab84e6cae2a0,0x43fbccc91a140945,0x43ffed89adf33e83,
0x440041d71f425c82,0x44006dd6e908768f,0x4400f02d497d677b,0x44014b33103ecda4,0x4401574bdd1395e0,0x44023dba9de98322,0x440486337e74000a,0x4404d8d546c1ba70,
0x4405490673f77f02,0x4407e4211ccfb650,0x440a7f3bc5a7ed9e,0x440bab84e6cae2a0,0x440bccc91a140945,0x440fed89adf33e83,0x4410d5a417ca8f5e,0x4411eb18d59bc8bc,
0x4412adebcb1f47b4,0x44143391b62645a4,0x441486337e74000a,0x4415d3c0d2e01bb1,0x44175966bde719a1,0x441782b7a20df6d4,0x4417e4211ccfb650,0x441a7f3bc5a7ed9e,
0x441aef6cf2ddb230,0x441d1a566e8024ec,0x441ec94d3dae000f,0x4420d5a417ca8f5e,0x44212845e01849c4,0x442189af5ada0940,0x4421eb18d59bc8bc,0x4422849ae6f86a81,
0x442486337e74000a,0x4424e79cf935bf86,0x44257257581e5c35,0x4425d3c0d2e01bb1,0x442782b7a20df6d4,0x4427e4211ccfb650,0x442900f9b3daf239,0x442a4e8708470de0,
0x442a7f3bc5a7ed9e,0x442aef6cf2ddb230,0x442d1a566e8024ec,0x442ec94d3dae000f,0x44306cd6c3cecd57,0x44309a854dfa7b06,0x4430f02d497d677b,0x443158fa9d792982,
0x443186a927a4d731,0x443189af5ada0940,0x4431a209b98a791f,0x4431eb18d59bc8bc,0x44323dba9de98322,0x44343d246262b06d,0x443486337e74000a,0x4434d8d546c1ba70,
0x4437214e274c3758,0x443782b7a20df6d4,0x4437e4211ccfb650,0x443900f9b3daf239,0x443a4e8708470de0,0x443d847b354b8560,0x443ec94d3dae000f,0x443ee1a79c5e6fee,
0x44406cd6c3cecd57,0x4440c6dc65568a48,0x4440e8c9704364f0,0x444158fa9d792982,0x444189af5ada0940,0x4441a209b98a791f,0x4441eb18d59bc8bc,0x44421dfc65ff10b8,
0x44422cc4187315ce,0x44426d57f1c92ec1,0x4443532f5bbabc80,0x44443d246262b06d,0x4445ec1b31908b90,0x44461ccfeef16b4e,0x44465e7b31c8b860,0x4447214e274c3758,
0x444782b7a20df6d4,0x4447e4211ccfb650,0x444b322f9f363361,0x444d7bbfe941e468,0x444ee1a79c5e6fee,0x445013e88bc84485,0x44506cd6c3cecd57,0x4450ad6a9d24e64a,
0x4450c6dc65568a48,0x445178b8d5639bec,0x445189af5ada0940,0x4451a209b98a791f,0x4451eb18d59bc8bc,0x44526d57f1c92ec1,0x4453204bcb577484,0x4453bae546354a68,
0x44561ccfeef16b4e,0x44565e7b31c8b860,0x445782b7a20df6d4,0x4457e4211ccfb650,0x4457e85ebe2d51a5,0x445969c707d6b440,0x445b322f9f363361,0x445c4aca94e3d3f5,
0x445d7bbfe941e468,0x446013e88bc84485,0x44607114652c68ac,0x4460c6dc65568a48,0x446189af5ada0940,0x4461a209b98a791f,0x4462200b345a43cf,0x44626d57f1c92ec1,
0x4463204bcb577484,0x4464b6e83bd4dfc8,0x44655181b6b2b5ac,0x44661ccfeef16b4e,0x44665e7b31c8b860,0x446782b7a20df6d4,0x4467e85ebe2d51a5,0x446aa5e2245f6317,
0x446c4aca94e3d3f5,0x446cd7180fbaa43f,0x446d7bbfe941e468,0x447047c381058b79,0x44707114652c68ac,0x4470ad6a9d24e64a,0x4470cf95814840b0,0x4470ef15dffc335c,
0x4470fd61e00338f6,0x447189af5ada0940,0x4471a209b98a791f,0x4473204bcb577484,0x44752adb57fb4033,0x44755181b6b2b5ac,0x44766a1cac605640,0x447782b7a20df6d4,
0x4477e85ebe2d51a5,0x447969c707d6b440,0x447aa5e2245f6317,0x447cd7180fbaa43f,0x447d1d3ecd260c64,0x448000e337f6a41a,0x4480278996ae1993,0x44802aeda7c10087,
0x44807114652c68ac,0x4480cf95814840b0,0x448189af5ada0940,0x4481a209b98a791f,0x4483532f5bbabc80,0x448438e6c1051518,0x44846f4d4f1683e7,0x44855181b6b2b5ac,
0x44866a1cac605640,0x448782b7a20df6d4,0x4489472071465a5e,0x448a4ffb379a019c,0x448aa5e2245f6317,0x448d1d3ecd260c64,0x4490cf95814840b0,0x4491a209b98a791f,
0x449207b0d5a9d3f0,0x4492747df1ccb18e,0x449308ab84507e83,0x44939cd916d44b78,0x449448a6f05f0e6e,0x44946f4d4f1683e7,0x449587e844c4247b,0x4495d5ef19dc894b,
0x44966a1cac605640,0x449782b7a20df6d4,0x44989b5297bb9768,0x449a4ffb379a019c,0x449d1d3ecd260c64,0x44a0cf95814840b0,0x44a1a209b98a791f,0x44a1e83076f5e144,
0x44a236374c0e4614,0x44a2747df1ccb18e,0x44a308ab84507e83,0x44a587e844c4247b,0x44a5d5ef19dc894b,0x44a6623c94b35995,0x44a66a1cac605640,0x44a782b7a20df6d4,
0x44a89b5297bb9768,0x44a8e9596cd3fc38,0x44a99caa5236feea,0x44aa4ffb379a019c,0x44ad1d3ecd260c64,0x44b1a209b98a791f,0x44b1e83076f5e144,0x44b308ab84507e83,
0x44b36253f701ffdc,0x44b3bbfc69b38135,0x44b4b5740c81ec0c,0x44b6623c94b35995,0x44b782b7a20df6d4,0x44b8e9596cd3fc38,0x44b99caa5236feea,0x44b9e2d10fa2670f,
0x44ba4ffb379a019c,0x44c01c449be53dfe,0x44c075ed0e96bf57,0x44c095106175f514,0x44c1a209b98a791f,0x44c2af03119efd2a,0x44c36253f701ffdc,0x44c3bbfc69b38135,
0x44c61c15d747f170,0x44c66a1cac605640,0x44c67f7f249c7f63,0x44c782b7a20df6d4,0x44c8e9596cd3fc38,0x44c99caa5236feea,0x44ca4ffb379a019c,0x44cd137df282ffca,
0x44d0e4f7f98469d3,0x44d15222217c0460,0x44d2af03119efd2a,0x44d34ed241bbe6a8,0x44d36253f701ffdc,0x44d3bbfc69b38135,0x44d4c8f5c1c80540,0x44d5cc2e3f397cb1,
0x44d67f7f249c7f63,0x44d7e1408210fe7a,0x44d8e9596cd3fc38,0x44d99caa5236feea,0x44da4ffb379a019c,0x44dbb69d02600700,0x44dd137df282ffca,0x44de753f4ff77ee1,
0x44dfd700ad6bfdf8,0x44e095106175f514,0x44e15222217c0460,0x44e1f6d1beea742b,0x44e2af03119efd2a,0x44e30d8bf1a204d0,0x44e36253f701ffdc,0x44e5a1ca3c897f2b,
0x44e5cc2e3f397cb1,0x44e61c15d747f170,0x44e7e1408210fe7a,0x44e83ae8f4c27fd3,0x44e8e9596cd3fc38,0x44e99caa5236feea,0x44ebb69d02600700,0x44ee753f4ff77ee1,
0x44efd700ad6bfdf8,0x44f1380fb2d27f50,0x44f1a6ea26dbff6c,0x44f1fbb22c3bfa78,0x44f36253f701ffdc,0x44f3e6606c637ebb,0x44f43b2871c379c7,0x44f5a1ca3c897f2b,
0x44f7e1408210fe7a,0x44f83ae8f4c27fd3,0x44f99caa5236feea,0x44fa7a5f3a49ff22,0x44fe0664dbedfec5,0x44ffd700ad6bfdf8,0x4500c9353ec8ff34,0x4501380fb2d27f50,
0x4501a6ea26dbff6c,0x4502af03119efd2a,0x4503e6606c637ebb,0x45056a5d0284bf1d,0x4505cc2e3f397cb1,0x450610a4b092ff47,0x4507e1408210fe7a,0x4508e9596cd3fc38,
0x45092dcfde2d7ece,0x45099caa5236feea,0x450e0664dbedfec5,0x450fd700ad6bfdf8,0x4510c9353ec8ff34,0x4511380fb2d27f50,0x4511a6ea26dbff6c,0x4512d13e4a4bbe75,
0x4514fb828e7b3f01,0x45156a5d0284bf1d,0x451610a4b092ff47,0x451694b125f47e26,0x45199caa5236feea,0x4519b860ef395ef1,0x4519d4178c3bbef8,0x451e0664dbedfec5,
0x451e1b96dd45fd88,0x45205a5acabf7f18,0x4520c9353ec8ff34,0x4521380fb2d27f50,0x4523e6606c637ebb,0x452470f17d6f5ede,0x4524fb828e7b3f01,0x45256a5d0284bf1d,
0x452586139f871f24,0x4527e1408210fe7a,0x4529b860ef395ef1,0x452bdf62e593aedb,0x452e0664dbedfec5,0x452fd700ad6bfdf8,0x45305a5acabf7f18,0x453072cf19ecae7d,
0x4531380fb2d27f50,0x45316c3a9f020ebc,0x453246ad393fde52,0x453265a624176efb,0x45335bcf5b579e98,0x45335f11a92ccf3a,0x4539b860ef395ef1,0x453bdf62e593aedb,
0x453cf2e3e0c0d6d0,0x453d3de1f532fd50,0x453e0664dbedfec5,0x453ef94bc558fdc0,0x453f19e5d71b26ba,0x4540248eb7a5575b,0x4540557755ffb625,0x4540747040d746ce,
0x454088011b44ad40,0x4540a073e6babb52,0x4541318b17281e0c,0x4541380fb2d27f50,0x4541485e3f6ab520,0x45416c3a9f020ebc,0x45480ba484c0fc00,0x454acbe1ea6686e6,
0x454b8278250cfce0,0x454cf2e3e0c0d6d0,0x454e0664dbedfec5,0x454ef94bc558fdc0,0x454f19e5d71b26ba,0x4550248eb7a5575b,0x4550747040d746ce,0x4550950a52996fc8,
0x4550a073e6babb52,0x4550f0556fecaac5,0x45512ca61eb133c6,0x4551380fb2d27f50,0x4552f37982f87fc0,0x4557dd2cdeeaf106,0x4558f0adda1818fb,0x455acbe1ea6686e6,
0x455cf2e3e0c0d6d0,0x455ef94bc558fdc0,0x455f19e5d71b26ba,0x4560248eb7a5575b,0x4560a073e6babb52,0x4561380fb2d27f50,0x45627ba7f709293d,0x456456dc07579728,
0x4565b62ae890a11c,0x4567dd2cdeeaf106,0x4568a4dff40c36fc,0x4568f0adda1818fb,0x45696c93092d7cf2,0x456b7b895b030be0,0x456cf2e3e0c0d6d0,0x456f19e5d71b26ba,
0x457020e3bf27b850,0x4570a073e6babb52,0x4571983e44e58340,0x457217ce6c788642,0x4572c775dd150b3c,0x4575b62ae890a11c,0x457775a85bdcaf00,0x45777953545a4e0b,
0x4577dd2cdeeaf106,0x4578f0adda1818fb,0x457b7b895b030be0,0x457cf2e3e0c0d6d0,0x457d4ab7990f194d,0x457f19e5d71b26ba,0x4580248eb7a5575b,0x458048a02e6c78d5,
0x4581380fb2d27f50,0x45815c212999a0ca,0x458217ce6c788642,0x45843ed062d2d62c,0x45866bd5424e5655,0x4587dd2cdeeaf106,0x458a0a31be66712f,0x458b7b895b030be0,
0x458cf2e3e0c0d6d0,0x458d4ab7990f194d,0x458e5e38943c4142,0x458f19e5d71b26ba,0x4590429d454b4896,0x45915c212999a0ca,0x459383231ff3f0b4,0x45943ed062d2d62c,
0x45949ca7044248e8,0x45966bd5424e5655,0x45994e847b878bb7,0x4599db466daeb7d1,0x459a042ed54540f0,0x459a0a31be66712f,0x459b7b895b030be0,0x459d4ab7990f194d,
0x459f19e5d71b26ba,0x45a0429d454b4896,0x45a048a02e6c78d5,0x45a12d35d8e1e76c,0x45a1e2e0329f9ca5,0x45a217ce6c788642,0x45a2fc6416edf4d9,0x45a49ca7044248e8,
0x45a66bd5424e5655,0x45a8238dd7fe8713,0x45a9db466daeb7d1,0x45aa042ed54540f0,0x45ab7b895b030be0,0x45acf2e3e0c0d6d0,0x45af19e5d71b26ba,0x45b0429d454b4896,
0x45b0e0d1f6ad2120,0x45b12d35d8e1e76c,0x45b1e2e0329f9ca5,0x45b2699f3ba59880,0x45b2e4ee6e92182a,0x45b2fc6416edf4d9,0x45b4b41cac9e2597,0x45b66bd5424e5655,
0x45b747b18d266eb4,0x45b8238dd7fe8713,0x45b88cd44f877600,0x45ba042ed54540f0,0x45bb7b895b030be0,0x45c01c6b5430e570,0x45c036977308e818,0x45c051598e09cf0d,
0x45c0e0d1f6ad2120,0x45c0e3886d294719,0x45c12d35d8e1e76c,0x45c4b41cac9e2597,0x45c58ff8f7763df6,0x45c59e1f440be020,0x45c66bd5424e5655,0x45c747b18d266eb4,
0x45c88cd44f877600,0x45cb7b895b030be0,0x45d02871267345ee,0x45d051598e09cf0d,0x45d0a21a200d4075,0x45d12d35d8e1e76c,0x45d22087cc15dc7a,0x45d3d84061c60d38,
0x45d58ff8f7763df6,0x45d66bd5424e5655,0x45d747b18d266eb4,0x45db30cbb220cab7,0x45db7b895b030be0,0x45dc3dc1a597f202,0x45ddc46092a913d4,0x45de6a3e667ea1c0,
0x45e037b58dc69cd0,0x45e099e8df04baa8,0x45e175c529dcd307,0x45e3760d1087ef60,0x45e3d84061c60d38,0x45e58ff8f7763df6,0x45e66bd5424e5655,0x45e747b18d266eb4,
0x45e8ce507a379086,0x45e8e6dd4e8717fc,0x45e9f2bc160a9480,0x45ec3dc1a597f202,0x45f037b58dc69cd0,0x45f099e8df04baa8,0x45f0b275b354421e,0x45f15d38558d4b91,
0x45f175c529dcd307,0x45f1d6e14f274618,0x45f2455b0a8d27ab,0x45f3d84061c60d38,0x45f4095a0a651c24,0x45f66bd5424e5655,0x45f747b18d266eb4,0x45f8e6dd4e8717fc,
0x45f9f2bc160a9480,0x45fab722b886d030,0x45fc3dc1a597f202,0x4600321deeac9056,0x460099e8df04baa8,0x4600b275b354421e,0x46015d38558d4b91,0x460175c529dcd307,
0x4602455b0a8d27ab,0x46025de7dedcaf21,0x4603d84061c60d38,0x4603f0cd361594ae,0x4604c06316c5e952,0x460747b18d266eb4,0x460ab722b886d030,0x460c3dc1a597f202,
0x460de933d1205f05,0x460e50fec1788957,0x4610321deeac9056,0x461099e8df04baa8,0x4610b275b354421e,0x46125de7dedcaf21,0x4612ad25fae551fd,0x4613f0cd361594ae,
0x461637efca22412c,0x461817476dd6c358,0x461ab722b886d030,0x461c3dc1a597f202,0x461de933d1205f05,0x461e50fec1788957,0x4620321deeac9056,0x462099e8df04baa8,
0x4622117592611282,0x4622ad25fae551fd,0x46233506dc6768c1,0x4623bce7bde97f85,0x462637efca22412c,0x4627af7c7d7e9906,0x462817476dd6c358,0x46284b2ce602d881,
0x462c3dc1a597f202,0x462e50fec1788957,0x462f94a5fca8cc08,0x4630321deeac9056,0x463099e8df04baa8,0x4632117592611282,0x4632ad25fae551fd,0x46333506dc6768c1,
0x46345898266dbf00,0x4635145e801beaed,0x463637efca22412c,0x463817476dd6c358,0x46384b2ce602d881,0x4638c302ceeff90c,0x46396ebe30092ec0,0x463e50fec1788957,
0x46401207fd82a3e4,0x4640a9f3d799b0e1,0x4641ad6f30761aae,0x4641cd8521a00720,0x4641ef7d5a008cd1,0x4642117592611282,0x46445898266dbf00,0x4645145e801beaed,
0x464637efca22412c,0x46477d794c891d1c,0x464817476dd6c358,0x4648c302ceeff90c,0x4649b6732f376ca0,0x464e50fec1788957,0x4650a9f3d799b0e1,0x4651ef7d5a008cd1,
0x4652117592611282,0x46547a905ece44b1,0x4655145e801beaed,0x465637efca22412c,0x46577d794c891d1c,0x465817476dd6c358,0x4658c302ceeff90c,0x465b4e15d3bdb0ec,
0x465dae3a00451b5f,0x4660a9f3d799b0e1,0x466121c9c086d16c,0x4661ef7d5a008cd1,0x466292421b33fac9,0x4663acdcc554894c,0x46656a3c30a885c7,0x466637efca22412c,
0x46677d794c891d1c,0x4667cedbad22d418,0x46689813f6a9ab9f,0x4668c302ceeff90c,0x466dae3a00451b5f,0x467036993e9f7434,0x467087fb9f392b30,0x4670a9f3d799b0e1,
0x46719e1af966d5d5,0x4671c6cc29b3b153,0x46745898266dbf00,0x4674f26647bb653c,0x467637efca22412c,0x46777d794c891d1c,0x4677a62a7cd5f89a,0x4677cedbad22d418,
0x467a2effd9aa3e8b,0x467dae3a00451b5f,0x4680a9f3d799b0e1,0x46819e1af966d5d5,0x4681c6cc29b3b153,0x4682182e8a4d684f,0x468637efca22412c,0x46877d794c891d1c,
0x4687a62a7cd5f89a,0x4687cedbad22d418,0x4688203e0dbc8b14,0x468d99e1681eada0,0x469124076880435b,0x4691611130f38c98,0x46919e1af966d5d5,0x4691b273918d4394,
0x4691c6cc29b3b153,0x4691db24c1da1f12,0x4696dab48b55af24,0x46972c16ebef6620,0x46977d794c891d1c,0x4697a62a7cd5f89a,0x4697cedbad22d418,0x469a8bad5a53e55e,
0x469d99e1681eada0,0x46a06cea0f2667a4,0x46a1611130f38c98,0x46a1b273918d4394,0x46a1c6cc29b3b153,0x46a1db24c1da1f12,0x46a329bbbc5778ea,0x46a446940e71795c,
0x46a4d500377e7995,0x46a5e68d69888a30,0x46a61f1075f09479,0x46a633690e170238,0x46a72c16ebef6620,0x46a7a62a7cd5f89a,0x46a7cedbad22d418,0x46a92d4483bb5cbb,
0x46aa8bad5a53e55e,0x46ad99e1681eada0,0x46b0c2d32bcb5d94,0x46b0ce1e4bdb4d6b,0x46b1611130f38c98,0x46b1b273918d4394,0x46b1db24c1da1f12,0x46b20ce36a3d7878,
0x46b2553852c0b18c,0x46b2802ce1132c84,0x46b2d3d29fb282fa,0x46b4a103e721ae40,0x46b4d500377e7995,0x46b61f1075f09479,0x46b633690e170238,0x46b72c16ebef6620,
0x46b7cedbad22d418,0x46b871a06e564210,0x46b92d4483bb5cbb,0x46bce080b0bf326f,0x46bd99e1681eada0,0x46c063e24d1c1747,0x46c0a68eca9141aa,0x46c0a7b079941167,
0x46c0ce1e4bdb4d6b,0x46c0e39893048ae7,0x46c0f491d42eb6fa,0x46c1611130f38c98,0x46c1db24c1da1f12,0x46c203d5f226fa90,0x46c215f0e253f660,0x46c2553852c0b18c,
0x46c2802ce1132c84,0x46c44450b06bd9e2,0x46c4d500377e7995,0x46c633690e170238,0x46c72c16ebef6620,0x46c7cedbad22d418,0x46c871a06e564210,0x46cce080b0bf326f,
0x46cd99e1681eada0,0x46ceba1ec7411d49,0x46d002b97c7f8c96,0x46d0127a367632c0,0x46d01dcb0c925022,0x46d02c8c5bcf37d1,0x46d0385a0c421dab,0x46d0704f1c2ed6db,
0x46d07956de392738,0x46d0a68eca9141aa,0x46d0a7b079941167,0x46d0be4c6fc01ea0,0x46d0e39893048ae7,0x46d1611130f38c98,0x46d1935dd5d23717,0x46d203d5f226fa90,
0x46d2802ce1132c84,0x46d4a103e721ae40,0x46d4e96fa7d59d80,0x46d72c16ebef6620,0x46d9b729f0bd1e00,0x46dd99e1681eada0,0x46deba1ec7411d49,0x46dfa6edd28212b6,
0x46e00734cc727074,0x46e00de80e5298b6,0x46e0127a367632c0,0x46e02240a6790675,0x46e0264a882d7cf1,0x46e0385a0c421dab,0x46e045e88a57acfc,0x46e0a68eca9141aa,
0x46e0a7b079941167,0x46e0be4c6fc01ea0,0x46e1611130f38c98,0x46e1935dd5d23717,0x46e45898266dbf00,0x46e72c16ebef6620,0x46e9b729f0bd1e00,0x46ed99e1681eada0,
0x46ef15bbbb0c7d00,0x46ef8d36a8915598,0x46efa6edd28212b6,0x46f0079ace9882c0,0x46f00de80e5298b6,0x46f0127a367632c0,0x46f01694d4f4a120,0x46f02240a6790675,
0x46f02c316066efde,0x46f07ddd9a44662c,0x46f0a68eca9141aa,0x46f0a7b079941167,0x46f150f57b949e7b,0x46f1611130f38c98,0x46f1935dd5d23717,0x46f45898266dbf00,
0x46f72c16ebef6620,0x46f819e2b9914ba1,0x46f9b729f0bd1e00,0x46f9f380d013367b,0x46fa62fc2a0709e0,0x46fae04fdb542be8,0x46fd99e1681eada0,0x46fdf40cb83cc000,
0x46ff8d36a8915598,0x47007ddd9a44662c,0x47009f11c763327a,0x4700a68eca9141aa,0x470150f57b949e7b,0x47017f053dabc958,0x4701935dd5d23717,0x470819e2b9914ba1,
0x470906b1c4d2410e,0x4709f380d013367b,0x470a62fc2a0709e0,0x470ae04fdb542be8,0x470bfe6ec912dbc0,0x470d99e1681eada0,0x4710177f53b1e9be,0x47109454a3ce93bc,
0x4710a68eca9141aa,0x471161cec2bc40a7,0x4711935dd5d23717,0x4714283be47f20ee,0x4715537597ce6b5a,0x47172d13ae505634,0x471906b1c4d2410e,0x4719f380d013367b,
0x471ae04fdb542be8,0x471d99e1681eada0,0x471f3554072a7f80,0x471ffd3063b5a107,0x47202f180c3ee70b,0x47209f11c763327a,0x4720a68eca9141aa,0x4720cc31e9149b71,
0x47210a9c9122f070,0x472161cec2bc40a7,0x4721935dd5d23717,0x472379d7814c8080,0x4723b842295ad57f,0x4724283be47f20ee,0x47272d13ae505634,0x4727a9e8fe6d0032,
0x4728584d619fa0a0,0x4729f380d013367b,0x472ae04fdb542be8,0x472bfe6ec912dbc0,0x472d4f8acb7dbbf8,0x472d99e1681eada0,0x472f8d36a8915598,0x473002371b25ba19,
0x473059694cbf0a50,0x47305d27ce5611e8,0x47309aa2d5fea501,0x4730a68eca9141aa,0x4730cc31e9149b71,0x4730f2c4a7fdb71e,0x47310a9c9122f070,0x473123641aadeba8,
0x4731935dd5d23717,0x47321d0ebae73fa4,0x4732b39b34f4a6c0,0x473347d09e03a91d,0x473379d7814c8080,0x4734283be47f20ee,0x4735cc8c66540dc0,0x473826be4e89aa30,
0x473ae04fdb542be8,0x473d4f8acb7dbbf8,0x473d99e1681eada0,0x473f73f74ed3796d,0x474002371b25ba19,0x474059694cbf0a50,0x4740741017158954,0x4740a68eca9141aa,
0x4740cc31e9149b71,0x47410a9c9122f070,0x47411610b582ac26,0x474123641aadeba8,0x4741935dd5d23717,0x4742423a0937b878,0x474347d09e03a91d,0x474379d7814c8080,
0x4744283be47f20ee,0x47444013cda45a40,0x4745cc8c66540dc0,0x474ae04fdb542be8,0x474d99e1681eada0,0x474ed82892c91569,0x474f73f74ed3796d,0x4750125961823f4d,
0x4750230fc7def7eb,0x47505d27ce5611e8,0x47506ecdd5188c6c,0x4750741017158954,0x475081637c40c8d6,0x4750cc31e9149b71,0x47510a9c9122f070,0x475123641aadeba8,
0x4752b39b34f4a6c0,0x4753419ebba0ea4f,0x475347d09e03a91d,0x475379d7814c8080,0x4754283be47f20ee,0x47544013cda45a40,0x47547623428452f0,0x475601d9fb010bc8,
0x4757d22d3deed86d,0x475ae04fdb542be8,0x475ed82892c91569,0x476081637c40c8d6,0x4760cc31e9149b71,0x47611a194719cd73,0x47618ef454219876,0x4763419ebba0ea4f,
0x4764283be47f20ee,0x47647623428452f0,0x476511f1fe8eb6f4,0x476601d9fb010bc8,0x4767d22d3deed86d,0x476ae04fdb542be8,0x476b7c1e975e8fec,0x476c17ed5368f3f0,
0x476eb134e3c67c68,0x4770096f7e079e6c,0x4770cc31e9149b71,0x47718ef454219876,0x477254cfb05ff4e2,0x47733e85ca6f8ae8,0x4774283be47f20ee,0x47747623428452f0,
0x47749d16f186ebf1,0x477511f1fe8eb6f4,0x477562f24dc5485d,0x4777d22d3deed86d,0x47787114eb2a9bd8,0x477993ac132567ac,0x4779a8b2633f63e0,0x477ae04fdb542be8,
0x477b7c1e975e8fec,0x477c17ed5368f3f0,0x477cefb60e8fed29,0x477eb134e3c67c68,0x4780096f7e079e6c,0x478037cd63e5d620,0x4780cc31e9149b71,0x4780e4512a5ff70c,
0x47812c06a6026a40,0x47816b1996505edc,0x47818ef454219876,0x4781a3faa43b94aa,0x4781e75eda33c892,0x478230f4f28ebb48,0x4782deb10d81bc19,0x47835073295827b5,
0x4784283be47f20ee,0x47847623428452f0,0x4784ca3c82ec43c0,0x478739777315d3d0,0x478993ac132567ac,0x4789a8b2633f63e0,0x478ae04fdb542be8,0x478c17ed5368f3f0,
0x478cefb60e8fed29,0x478e872843928400,0x478f7e7a76e07787,0x4790096f7e079e6c,0x479037cd63e5d620,0x47903dff464894ee,0x47906b24d7adecbd,0x47909ffca60b8363,
0x4790d6b51121998b,0x4790e4512a5ff70c,0x4790ea830cc2b5da,0x47912c06a6026a40,0x47918ef454219876,0x4791e75eda33c892,0x47935073295827b5,0x47947623428452f0,
0x4794ca3c82ec43c0,0x4799a8b2633f63e0,0x479c17ed5368f3f0,0x479e872843928400,0x479f7e7a76e07787,0x479fd78d45324740,0x47a0096f7e079e6c,0x47a00f595a4dbd16,
0x47a020e677135a6a,0x47a037cd63e5d620,0x47a03b8e9d56d524,0x47a03dff464894ee,0x47a047da2615f36b,0x47a09128385445fd,0x47a09ffca60b8363,0x47a0b1ea04f42030,
0x47a0d6b51121998b,0x47a1e75eda33c892,0x47a379d7814c8080,0x47a47623428452f0,0x47a4ca3c82ec43c0,0x47a61aa1848c0700,0x47a9a8b2633f63e0,0x47ae7426933f5760,
0x47ae872843928400,0x47af7e7a76e07787,0x47afbb88c7679c8f,0x47b09ffca60b8363,0x47b0a53e3a120270,0x47b1af921db32297,0x47b1e75eda33c892,0x47b47623428452f0,
0x47b9569dc29e42a4,0x47bbe5622aeecd02,0x47bd2cc45f171231,0x47be7426933f5760,0x47bfbb88c7679c8f,0x47c03bfaa681c55a,0x47c094652c93f576,0x47c09ffca60b8363,
0x47c164d5b2667805,0x47c18031e7f18319,0x47c1e75eda33c892,0x47c28db0be4b2ab0,0x47c43914f1fd2de8,0x47c47623428452f0,0x47c6d71cee6f8188,0x47c9475a2e7c7962,
0x47c9569dc29e42a4,0x47cbe5622aeecd02,0x47cd79976bb1b460,0x47ce7426933f5760,0x47cfbb88c7679c8f,0x47d07fe0046bad27,0x47d09ffca60b8363,0x47d111acc05ac6f6,
0x47d199777c2e9690,0x47d1b1f253bd882b,0x47d1e75eda33c892,0x47d249cb606142e3,0x47d300f651f6b1fb,0x47d308981c07969c,0x47d381ea0067bed0,0x47d43914f1fd2de8,
0x47d47623428452f0,0x47d6d71cee6f8188,0x47d9475a2e7c7962,0x47d9569dc29e42a4,0x47de7426933f5760,0x47dfbb88c7679c8f,0x47e03cc5632fe736,0x47e09ffca60b8363,
0x47e0a6d3b36e4628,0x47e111acc05ac6f6,0x47e12155b2d3a126,0x47e17c85cd4747c4,0x47e1b1f253bd882b,0x47e1d7508963dd74,0x47e1e75eda33c892,0x47e249cb606142e3,
0x47e307cd5f5974c0,0x47e308981c07969c,0x47e381ea0067bed0,0x47e3fc06a17608e0,0x47e43914f1fd2de8,0x47e47623428452f0,0x47e6d71cee6f8188,0x47ee7426933f5760,
0x47efbb88c7679c8f,0x47f00e9548737a82,0x47f02db47e39a66b,0x47f03cc5632fe736,0x47f05bb1e9ca8aa8,0x47f061be3a7f2b91,0x47f09ffca60b8363,0x47f0a6d3b36e4628,
0x47f0dca5983b977d,0x47f0f25adb691296,0x47f10333e8e71f90,0x47f12155b2d3a126,0x47f1e75eda33c892,0x47f213941d3ce0a0,0x47f307cd5f5974c0,0x47f308981c07969c,
0x47f3fc06a17608e0,0x47f47623428452f0,0x47f4f03fe3929d00,0x47fe7426933f5760,0x47ffbb88c7679c8f,0x480007f0ea3c4034,0x48000d652d6e47b8,0x48000e9548737a82,
0x48002a56dc559684,0x48002db47e39a66b,0x48003cc5632fe736,0x480051e298dac8ea,0x48005ab47df0e055,0x48005bb1e9ca8aa8,0x480067327db13315,0x4800dca5983b977d,
0x48011f5adb204c80,0x48012155b2d3a126,0x480307cd5f5974c0,0x4803fc06a17608e0,0x4804f03fe3929d00,0x480e6dd0adce4880,0x480e7426933f5760,0x480f91a847a07755,
0x480fbb88c7679c8f,0x481003e45544b168,0x481007f0ea3c4034,0x48100d652d6e47b8,0x481016df76d928bf,0x48102db47e39a66b,0x48102fa3e3248851,0x481031d16a03656e,
0x48103cc5632fe736,0x48108cced54b8395,0x4810dca5983b977d,0x48111f5adb204c80,0x48112155b2d3a126,0x4811568f8a1e5916,0x4812fb2194775700,0x48131d885beb2939,
0x4813fc06a17608e0,0x4814f03fe3929d00,0x481504cac51f1eaf,0x4815f86bf9b9196a,0x481938169a5ab020,0x481e7426933f5760,0x481f91a847a07755,0x48202db47e39a66b,
0x482087222989ba3a,0x48208cced54b8395,0x48212155b2d3a126,0x4821568f8a1e5916,0x482165d31e402258,0x48231d885beb2939,0x48241129908523f4,0x482504cac51f1eaf,
0x4825f86bf9b9196a,0x482938169a5ab020,0x482bd61e96cd03c0,0x482e19be58c7b5ee,0x482e7426933f5760,0x4830008060fdd5b2,0x483004ce8d9a0ed4,0x48302db47e39a66b,
0x483042a4be1d3908,0x4830891747d8d580,0x48312155b2d3a126,0x4831e7c2ca31cb28,0x483229e727512e7e,0x48341129908523f4,0x483504cac51f1eaf,0x4835f86bf9b9196a,
0x4837dfae62ed0ee0,0x483863f71d2bd58c,0x483b3edabaf9c5bd,0x483e19be58c7b5ee,0x483e7426933f5760,0x4840008060fdd5b2,0x484042a4be1d3908,0x4841e7c2ca31cb28,
0x4842ae2fe18ff52a,0x48441129908523f4,0x4844534deda4874a,0x484504cac51f1eaf,0x4845cb37dc7d48b1,0x4845f86bf9b9196a,0x4847dfae62ed0ee0,0x4848e83fd76a9c38,
0x48491573f4a66cf1,0x484a0915294067ac,0x484d050af59e0988,0x4850008060fdd5b2,0x485042a4be1d3908,0x4851e7c2ca31cb28,0x48524af955e0e029,0x48541129908523f4,
0x4854e3b8968f6d04,0x485504cac51f1eaf,0x4857dfae62ed0ee0,0x485800c0917cc08b,0x48591573f4a66cf1,0x485a0915294067ac,0x485d050af59e0988,0x4860008060fdd5b2,
0x486069c7e402fa3a,0x48619f8d75bc584b,0x4861e7c2ca31cb28,0x486386cfdef04dc1,0x48641129908523f4,0x486504cac51f1eaf,0x486525dcf3aed05a,0x4867dfae62ed0ee0,
0x486800c0917cc08b,0x48691573f4a66cf1,0x486a0915294067ac,0x486b87100f6f389a,0x486c327bef93c078,0x486c460d8286a111,0x486d050af59e0988,0x487149d785aa145c,
0x487386cfdef04dc1,0x48741129908523f4,0x487504cac51f1eaf,0x4875c3c838368726,0x48770d1f5ce2c5d0,0x4878a56c23d2dfe0,0x48791573f4a66cf1,0x487a0915294067ac,
0x487b87100f6f389a,0x487c460d8286a111,0x487d050af59e0988,0x488149d785aa145c,0x48816429666b5d7e,0x48822326d982c5f5,0x48842b7b71466d16,0x488504cac51f1eaf,
0x4885c3c838368726,0x48870d1f5ce2c5d0,0x4888a56c23d2dfe0,0x488b87100f6f389a,0x488d050af59e0988,0x48916429666b5d7e,0x48917e7b472ca6a0,0x48922326d982c5f5,
0x48927c111ade27e8,0x4893ae4ab0123b74,0x489445cd5207b638,0x489504cac51f1eaf,0x4895c3c838368726,0x4898a56c23d2dfe0,0x48995740a689a3c6,0x489a163e19a10c3d,
0x489b2e25ce13d6a7,0x489d050af59e0988,0x48a0669392b9dc36,0x48a149d785aa145c,0x48a17e7b472ca6a0,0x48a1bd13a7c6bf71,0x48a22326d982c5f5,0x48a27c111ade27e8,
0x48a2baa97b7840b9,0x48a445cd5207b638,0x48a590be9f5883e4,0x48a5c3c838368726,0x48a70d1f5ce2c5d0,0x48a8a56c23d2dfe0,0x48ab2e25ce13d6a7,0x48ad050af59e0988,
0x48ae42d3528e32a3,0x48b05301ffc6fb9d,0x48b0669392b9dc36,0x48b0abec41225d90,0x48b0e49168405559,0x48b0f1ba58a0f9ea,0x48b0f2876cf3416b,0x48b149d785aa145c,
0x48b17e7b472ca6a0,0x48b1bd13a7c6bf71,0x48b1e2f450441e22,0x48b27c111ade27e8,0x48b2baa97b7840b9,0x48b3dfba204bafb4,0x48b445cd5207b638,0x48b590be9f5883e4,
0x48b63a9056d87cc0,0x48b70d1f5ce2c5d0,0x48b8a56c23d2dfe0,0x48be42d3528e32a3,0x48bfcc5d00791920,0x48bfcd2a14cb60a1,0x48c0179df07600d0,0x48c018c2b00474d2,
0x48c028c846720ae6,0x48c02c8ef78262eb,0x48c05301ffc6fb9d,0x48c0582824f0d524,0x48c0669392b9dc36,0x48c07b8499c63e51,0x48c08a0cfe406464,0x48c0abec41225d90,
0x48c0e49168405559,0x48c0f1ba58a0f9ea,0x48c0f2876cf3416b,0x48c17e7b472ca6a0,0x48c1e2f450441e22,0x48c27c111ade27e8,0x48c4af14d50cdac0,0x48c63a9056d87cc0,
0x48c8a56c23d2dfe0,0x48cc9bc37298e500,0x48cfb2ba76302900,0x48cfcc5d00791920,0x48cfcd2a14cb60a1,0x48d00c8491d00641,0x48d0179df07600d0,0x48d018c2b00474d2,
0x48d026095e3f07e2,0x48d028c846720ae6,0x48d02c8ef78262eb,0x48d038756a7aa4fb,0x48d050d5775b329a,0x48d0669392b9dc36,0x48d07b8499c63e51,0x48d0f1ba58a0f9ea,
0x48d0f2876cf3416b,0x48d17e7b472ca6a0,0x48d35dd83f6f57cc,0x48d4af14d50cdac0,0x48d4e82f01ac85ca,0x48d5ad5a62cb1cc9,0x48d8a56c23d2dfe0,0x48d984cc6f01a100,
0x48dc9bc37298e500,0x48dfb2ba76302900,0x48dfcd2a14cb60a1,0x48e02c8ef78262eb,0x48e0669392b9dc36,0x48e0760665cbd08a,0x48e0f1ba58a0f9ea,0x48e0f2876cf3416b,
0x48e11e960377cea4,0x48e17e7b472ca6a0,0x48e35dd83f6f57cc,0x48e42303a08deecb,0x48e4e82f01ac85ca,0x48e511f3b57fc340,0x48e5ad5a62cb1cc9,0x48e67285c3e9b3c8,
0x48e8a56c23d2dfe0,0x48ef5c468282c8af,0x48f010b8f1d0afd7,0x48f02c8ef78262eb,0x48f050e4247df5fa,0x48f0c1c7b6c68dec,0x48f0f1ba58a0f9ea,0x48f1d3817d3229ce,
0x48f35dd83f6f57cc,0x48f4e82f01ac85ca,0x48f5ad5a62cb1cc9,0x48f67285c3e9b3c8,0x48f8a56c23d2dfe0,0x48fabd423bcb3eb5,0x48fc38e49225fc80,0x48fd0cc45f2703b2,
0x48ff5c468282c8af,0x490010b8f1d0afd7,0x4900492abaf4fbd0,0x4900819c841947c9,0x4900d5e452ef46d6,0x4902df09aa4de650,0x49035dd83f6f57cc,0x4903cebbd1b7efbe,
0x49045b7569b23ac4,0x4904e82f01ac85ca,0x4905ad5a62cb1cc9,0x49067285c3e9b3c8,0x4908354e4f4b2dbf,0x490a68fa6cf53fa8,0x490a84d072a6f2bc,0x490f5c468282c8af,
0x491010b8f1d0afd7,0x4910492abaf4fbd0,0x491073b181406e3f,0x4910d5e452ef46d6,0x4911b7ab778076ba,0x4912525012539b4a,0x4912df09aa4de650,0x4913a4350b6c7d4f,
0x49143f9f640087b0,0x4915ad5a62cb1cc9,0x49167285c3e9b3c8,0x49187bab1b485342,0x491a84d072a6f2bc,0x491f1cdf37f20ff1,0x4920d5e452ef46d6,0x4920f597f837a335,
0x4922df09aa4de650,0x49231e70f4de9f0e,0x4923a4350b6c7d4f,0x4923e39c55fd360d,0x4925ad5a62cb1cc9,0x49267285c3e9b3c8,0x4926f154590b2544,0x49287bab1b485342,
0x492a651ccd5e965d,0x492a84d072a6f2bc,0x492c4e8e7f74d978,0x492e971b216431b0,0x492f1cdf37f20ff1,0x4930d5e452ef46d6,0x4930f597f837a335,0x493134ff42c85bf3,
0x4932df09aa4de650,0x49331e70f4de9f0e,0x4933a4350b6c7d4f,0x4935ad5a62cb1cc9,0x49367285c3e9b3c8,0x493796cc14e15fe4,0x493a651ccd5e965d,0x493cc0fe02a85327,
0x493e971b216431b0,0x493f1cdf37f20ff1,0x49401d1803bea7a4,0x4940832875042986,0x4941941a32a17110,0x4942df09aa4de650,0x4945ad5a62cb1cc9,0x49477022ee2c96c0,
0x4948093b9814d993,0x494a651ccd5e965d,0x494b930d680374c2,0x494cc0fe02a85327,0x495017ae733d1c9c,0x49501d1803bea7a4,0x4950832875042986,0x49508a1df670964b,
0x4950d8991b300c5a,0x4951b1190fa907eb,0x4952df09aa4de650,0x49577022ee2c96c0,0x4958093b9814d993,0x4959372c32b9b7f8,0x495a651ccd5e965d,0x495b930d680374c2,
0x495c9be0ccde6bc0,0x496043c12a7370c8,0x4960832875042986,0x496113f1395f9cd2,0x4961b1190fa907eb,0x4962df09aa4de650,0x49641751c0b0285f,0x49647f69c8263e64,
0x49667332f5f9e529,0x4966db4afd6ffb2e,0x4969372c32b9b7f8,0x496a0601dd858140,0x496a651ccd5e965d,0x496b930d680374c2,0x496deeee9d4d318c,0x496ebf1eac395d96,
0x4970832875042986,0x4971b1190fa907eb,0x4972df09aa4de650,0x4972e961260b49fa,0x4973b99134f77604,0x49741751c0b0285f,0x49747f69c8263e64,0x49767332f5f9e529,
0x4977ab7b0c5c2738,0x4979372c32b9b7f8,0x49799f443a2fcdfd,0x497b930d680374c2,0x497deeee9d4d318c,0x497eb9f2ee5aabc1,0x497f8f4ebb2589a0,0x4980832875042986,
0x4981b1190fa907eb,0x4981c09c49451d6a,0x4982df09aa4de650,0x4982e961260b49fa,0x4983b99134f77604,0x498545425b5506c4,0x49861046ac6280f9,0x498641bcd12e3311,
0x49867332f5f9e529,0x4989372c32b9b7f8,0x498b930d680374c2,0x498deeee9d4d318c,0x498eb9f2ee5aabc1,0x498f8f4ebb2589a0,0x498fe7e388ff8a26,0x4990f06c3a58f160,
0x4991535883f05590,0x499205a1c297f6b9,0x4992e961260b49fa,0x49937dc3946e6042,0x499545425b5506c4,0x49961046ac6280f9,0x499641bcd12e3311,0x4999372c32b9b7f8,
0x499968a257856a10,0x499a9692f22a4875,0x499b930d680374c2,0x499fcf287699b11a,0x49a08d7ff0c18d30,0x49a0f06c3a58f160,0x49a205a1c297f6b9,0x49a29f2feed9bed6,
0x49a31ad74ad6fc12,0x49a52c8748ef2db8,0x49a545425b5506c4,0x49a756f2596d386a,0x49aa9692f22a4875,0x49ab930d680374c2,0x49aca842f0427a1b,0x49afcf287699b11a,
0x49b03e22fbb15037,0x49b08d7ff0c18d30,0x49b0f06c3a58f160,0x49b0f69afef267a3,0x49b1535883f05590,0x49b19657efcda603,0x49b205a1c297f6b9,0x49b30e79c1a40f8c,
0x49b756f2596d386a,0x49bb930d680374c2,0x49bdb11aef4e92ee,0x49bfcf287699b11a,0x49c02a93a72a2900,0x49c06f179d1fa018,0x49c08d7ff0c18d30,0x49c0f06c3a58f160,
0x49c0f69afef267a3,0x49c12d3ce19ccb90,0x49c17e1e60c52f2e,0x49c19657efcda603,0x49c1ff72fdfe8076,0x49c205a1c297f6b9,0x49cdb11aef4e92ee,0x49cfcf287699b11a,
0x49d02a93a72a2900,0x49d05b06c53b16aa,0x49d068e8d88629d5,0x49d06f179d1fa018,0x49d0abe844637a48,0x49d0d62c9ddaf1af,0x49d0f06c3a58f160,0x49d0f69afef267a3,
0x49d17e1e60c52f2e,0x49d205a1c297f6b9,0x49d7101946371983,0x49da3d2d9127c6c5,0x49dac4b0f2fa8e50,0x49dec021b2f42204,0x49dec97627f6c140,0x49e00d2e5a430056,
0x49e02a93a72a2900,0x49e054076d791f3d,0x49e068e8d88629d5,0x49e06b3df5c6d1a4,0x49e06f179d1fa018,0x49e0f06c3a58f160,0x49e17e1e60c52f2e,0x49e1b644cd87b9c0,
0x49e28d25246abe44,0x49e7101946371983,0x49e7306e6d856dd5,0x49e8a6a36baf7024,0x49ea3d2d9127c6c5,0x49eac4b0f2fa8e50,0x49eec021b2f42204,0x49eee076da427656,
0x49f068e8d88629d5,0x49f06f179d1fa018,0x49f0f06c3a58f160,0x49f17e1e60c52f2e,0x49f1e54c9b49a267,0x49f24c7ad5ce15a0,0x49f28d25246abe44,0x49f48add8467881e,
0x49f55939f9706e90,0x49f5798f20bec2e2,0x49f7306e6d856dd5,0x49f82f4a9d83d2c2,0x49f865f91d12c780,0x49fa3d2d9127c6c5,0x49fca2142ba903d8,0x49fee076da427656,
0x4a006f179d1fa018,0x4a017e1e60c52f2e,0x4a0215cc563f20e2,0x4a027cfa90c3941b,0x4a028d25246abe44,0x4a041384b63beabc,0x4a04ab32abb5dc70,0x4a04d6b47f2480f8,
0x4a07306e6d856dd5,0x4a082f4a9d83d2c2,0x4a0a3d2d9127c6c5,0x4a0ac4b0f2fa8e50,0x4a0ee076da427656,0x4a10336b3609d167,0x4a106f179d1fa018,0x4a10baee97dc98f2,
0x4a117e1e60c52f2e,0x4a127cfa90c3941b,0x4a141384b63beabc,0x4a14d6b47f2480f8,0x4a1599e4480d1734,0x4a1682ff8e5429dd,0x4a182f4a9d83d2c2,0x4a1a3d2d9127c6c5,
0x4a1ac4b0f2fa8e50,0x4a1f420ebeb6c174,0x4a2063eaf0ff4fe2,0x4a20baee97dc98f2,0x4a214d063746628b,0x4a217e1e60c52f2e,0x4a226739a70c41d7,0x4a24d6b47f2480f8,
0x4a25384c6398cc16,0x4a2682ff8e5429dd,0x4a282f4a9d83d2c2,0x4a2a3d2d9127c6c5,0x4a2ac4b0f2fa8e50,0x4a2bb8acae1d4a1b,0x4a2c4b1084cbbac8,0x4a2d2368c8e25520,
0x4a2f420ebeb6c174,0x4a30c5cf0cb84214,0x4a314d526e8b099f,0x4a31aeea52ff54bd,0x4a32a2e60e221088,0x4a34d6b47f2480f8,0x4a35384c6398cc16,0x4a3682ff8e5429dd,
0x4a382f4a9d83d2c2,0x4a391dd61e38b9fc,0x4a3a0c619eeda136,0x4a3bb8acae1d4a1b,0x4a3c4b1084cbbac8,0x4a3dd170169ce740,0x4a40baee97dc98f2,0x4a414d526e8b099f,
0x4a423bddef3ff0d9,0x4a426739a70c41d7,0x4a43e828fe6f99be,0x4a44d6b47f2480f8,0x4a4682ff8e5429dd,0x4a491dd61e38b9fc,0x4a4ac4b0f2fa8e50,0x4a4ddc3d7da7669d,
0x4a503b8a06c5fb5e,0x4a511c867c50e410,0x4a523bddef3ff0d9,0x4a52f99d7dbab284,0x4a5340174bdb0092,0x4a53e828fe6f99be,0x4a54d6b47f2480f8,0x4a560bb9cdf9b640,
0x4a5682ff8e5429dd,0x4a57b804dd295f25,0x4a591dd61e38b9fc,0x4a5cca7515e2585c,0x4a5d64f7bd4cf300,0x4a5ddc3d7da7669d,0x4a603b8a06c5fb5e,0x4a60e39bb95a948a,
0x4a623bddef3ff0d9,0x4a625f1ad65017e0,0x4a626ca9e17a1668,0x4a62d66096aa8b7d,0x4a64acb0127f5aad,0x4a64d6b47f2480f8,0x4a660bb9cdf9b640,0x4a6682ff8e5429dd,
0x4a6890e281f81de0,0x4a691dd61e38b9fc,0x4a6cca7515e2585c,0x4a6d64f7bd4cf300,0x4a703b8a06c5fb5e,0x4a71c4982ee57d3c,0x4a723bddef3ff0d9,0x4a72d66096aa8b7d,
0x4a74acb0127f5aad,0x4a74d6b47f2480f8,0x4a7597d7d069c245,0x4a7635be3a9edc8b,0x4a78594f0a28f90d,0x4a791dd61e38b9fc,0x4a7bdf4d57f7f0c4,0x4a7cca7515e2585c,
0x4a8014e95ceb54b5,0x4a801f14a54ad39b,0x4a8088cb5a7b48b0,0x4a80e39bb95a948a,0x4a8173f31865b048,0x4a81c4982ee57d3c,0x4a82d66096aa8b7d,0x4a852243f1748e79,
0x4a857137268f1b9c,0x4a8597d7d069c245,0x4a8635be3a9edc8b,0x4a8890e281f81de0,0x4a891dd61e38b9fc,0x4a8bdf4d57f7f0c4,0x4a8c54e136ed2490,0x4a8cca7515e2585c,
0x4a8d64f7bd4cf300,0x4a9175a4f9caf019,0x4a92d66096aa8b7d,0x4a94371c338a26e1,0x4a952243f1748e79,0x4a9597d7d069c245,0x4a974786a263eacc,0x4a991dd61e38b9fc,
0x4a9af4259a0d892c,0x4a9bdf4d57f7f0c4,0x4a9c54e136ed2490,0x4a9cca7515e2585c,0x4aa386be651a592f,0x4aa4371c338a26e1,0x4aa4e77a01f9f493,0x4aa52243f1748e79,
0x4aa53fa8e931db6c,0x4aa597d7d069c245,0x4aaa08fddc232194,0x4aaaf4259a0d892c,0x4aabdf4d57f7f0c4,0x4aac377c3f2fd79d,0x4aac54e136ed2490,0x4aacca7515e2585c,
0x4ab010e37b75d49c,0x4ab013377b8614e4,0x4ab0250cc115c7d9,0x4ab0309c734361d7,0x4ab12213eba1b61b,0x4ab1b50cc25436da,0x4ab429459ff33d00,0x4ab4371c338a26e1,
0x4ab48f4b1ac20dba,0x4ab4e77a01f9f493,0x4ab53fa8e931db6c,0x4abaf4259a0d892c,0x4abb69b97902bcf8,0x4abbdf4d57f7f0c4,0x4abc377c3f2fd79d,0x4abc54e136ed2490,
0x4abd64f7bd4cf300,0x4abfc218660d7c2f,0x4ac0111de53bcf90,0x4ac013377b8614e4,0x4ac029e503ea6fa8,0x4ac0309c734361d7,0x4ac08f1b14ef355c,0x4ac12213eba1b61b,
0x4ac1b50cc25436da,0x4ac2370430a0bab2,0x4ac32e8f7de27256,0x4ac37a5ad5c30923,0x4ac3deed4c524008,0x4ac48f4b1ac20dba,0x4ac53fa8e931db6c,0x4ac660fcbd88300f,
0x4ac8c71eaea01800,0x4ac99369fd2dedc8,0x4aca7e91bb185560,0x4acb69b97902bcf8,0x4acc54e136ed2490,0x4acd64f7bd4cf300,0x4acfc218660d7c2f,0x4ad0025348031577,
0x4ad013377b8614e4,0x4ad01354b069125e,0x4ad0309c734361d7,0x4ad08f1b14ef355c,0x4ad0f3ad8b7e6c41,0x4ad1016865fce700,0x4ad11d7612930940,0x4ad1b50cc25436da,
0x4ad2370430a0bab2,0x4ad27e31af72a4a4,0x4ad28a953ec9f4b0,0x4ad37a5ad5c30923,0x4ad6d1f2c36eb700,0x4ad8a8423f438630,0x4ad99e399de842a9,0x4ada7e91bb185560,
0x4adc54e136ed2490,0x4add28d5c4c5e73b,0x4add64f7bd4cf300,0x4adeee23d834b984,0x4adfc218660d7c2f,0x4ae006f1def7097e,0x4ae08f1b14ef355c,0x4ae0f84b648d191c,
0x4ae1630fa2c7f807,0x4ae1b50cc25436da,0x4ae37a5ad5c30923,0x4ae99e399de842a9,0x4aea7e91bb185560,0x4aeb6387b15714f2,0x4aec54e136ed2490,0x4aed28d5c4c5e73b,
0x4aee2b30b2c1f3c0,0x4aeeee23d834b984,0x4af0e43118514832,0x4af1b50cc25436da,0x4af230d268f512ac,0x4af37a5ad5c30923,0x4af44e4f639bcbce,0x4af4ca150a3ca7a0,
0x4af56d4cceb8b8da,0x4af7d8eb8a797060,0x4afb6387b15714f2,0x4afc54e136ed2490,0x4afd28d5c4c5e73b,0x4afe75771569b1b5,0x4afeee23d834b984,0x4b00c3b33cbe273c,
0x4b00f157224504aa,0x4b01e2b0a7db1448,0x4b02722f5d698ace,0x4b035cf5de05bc30,0x4b04f4a00bedb10b,0x4b056d4cceb8b8da,0x4b07329ae2278b23,0x4b07d8eb8a797060,
0x4b0b6387b15714f2,0x4b0d28d5c4c5e73b,0x4b0eee23d834b984,0x4b11b50cc25436da,0x4b11e2b0a7db1448,0x4b12722f5d698ace,0x4b12b9eeb830c611,0x4b1301ae12f80154,
0x4b137a5ad5c30923,0x4b14ddce192a4254,0x4b156d4cceb8b8da,0x4b17329ae2278b23,0x4b17c21997b601a9,0x4b17d8eb8a797060,0x4b18f7e8f5965d6c,0x4b1bab470c1e5035,
0x4b1c54e136ed2490,0x4b1d28d5c4c5e73b,0x4b1eee23d834b984,0x4b206521ef337d42,0x4b20bd2037c44900,0x4b20f157224504aa,0x4b21ab303add6980,0x4b21e2b0a7db1448,
0x4b2227268025606d,0x4b22722f5d698ace,0x4b22b9eeb830c611,0x4b235cf5de05bc30,0x4b27329ae2278b23,0x4b27d8eb8a797060,0x4b28f7e8f5965d6c,0x4b2bab470c1e5035,
0x4b2c6a0e68721bb8,0x4b2d28d5c4c5e73b,0x4b2dc20063241000,0x4b2eee23d834b984,0x4b30415a91236d2e,0x4b3046183637b8c0,0x4b306521ef337d42,0x4b308919ebeaa871,
0x4b30bd2037c44900,0x4b30f4a0a4c1f3c8,0x4b3123e94b8748c5,0x4b31efd6b1ced0c0,0x4b32722f5d698ace,0x4b37329ae2278b23,0x4b376e1ee2edd343,0x4b37d8eb8a797060,
0x4b396ef0f722edac,0x4b3bab470c1e5035,0x4b3c6a0e68721bb8,0x4b3dc20063241000,0x4b3eee23d834b984,0x4b40539b48d14c55,0x4b407d98a3356388,0x4b40f4a0a4c1f3c8,
0x4b42722f5d698ace,0x4b433d3213be4974,0x4b43efbe161121d4,0x4b4531c8cdf270ba,0x4b45fccb84472f60,0x4b476e1ee2edd343,0x4b48ebad9b956a49,0x4b498cb2f78611bc,
0x4b4bab470c1e5035,0x4b4c6a0e68721bb8,0x4b50539b48d14c55,0x4b50f4a0a4c1f3c8,0x4b513024a5883be8,0x4b52722f5d698ace,0x4b531334b95a3241,0x4b53efbe161121d4,
0x4b540d80167445e4,0x4b554f8ace5594ca,0x4b56eadb87604fe0,0x4b58ebad9b956a49,0x4b598cb2f78611bc,0x4b5bab470c1e5035,0x4b5c6a0e68721bb8,0x4b5d19f4c4945533,
0x4b60539b48d14c55,0x4b60f4a0a4c1f3c8,0x4b610381a4f385d0,0x4b61c24901475153,0x4b62722f5d698ace,0x4b631334b95a3241,0x4b63e0dd15df8fcc,0x4b654f8ace5594ca,
0x4b66af57869a07c0,0x4b66b6c806b2d0c4,0x4b698cb2f78611bc,0x4b6bab470c1e5035,0x4b6c6a0e68721bb8,0x4b6d19f4c4945533,0x4b6dd14ba0cf57b2,0x4b70539b48d14c55,
0x4b70d6dea45ecfb8,0x4b710381a4f385d0,0x4b71c24901475153,0x4b723e1bdcbc0bb2,0x4b73298639a48d4d,0x4b73d96c95c6c6c8,0x4b73e0dd15df8fcc,0x4b754f8ace5594ca,
0x4b7673d385d3bfa0,0x4b76af57869a07c0,0x4b76b6c806b2d0c4,0x4b798cb2f78611bc,0x4b7baeff4c2ab4b7,0x4b7c6a0e68721bb8,0x4b7dd14ba0cf57b2,0x4b80539b48d14c55,
0x4b811262a52517d8,0x4b81c24901475153,0x4b83298639a48d4d,0x4b8334aef9c9bad3,0x4b83e0dd15df8fcc,0x4b854f8ace5594ca,0x4b86014d4a7e0086,0x4b86b6c806b2d0c4,
0x4b88d9145b5773bf,0x4b898cb2f78611bc,0x4b8baeff4c2ab4b7,0x4b8c6a0e68721bb8,0x4b90539b48d14c55,0x4b91091605061c93,0x4b91c24901475153,0x4b93e0dd15df8fcc,
0x4b954bd28e493048,0x4b954f8ace5594ca,0x4b96014d4a7e0086,0x4b96b6c806b2d0c4,0x4b98d9145b5773bf,0x4b9b5441ee104c98,0x4b9c6a0e68721bb8,0x4b9ff1bbd56dc86c,
0x4ba0539b48d14c55,0x4ba1091605061c93,0x4ba275e79d75ef50,0x4ba3e0dd15df8fcc,0x4ba54bd28e493048,0x4ba6014d4a7e0086,0x4ba6b6c806b2d0c4,0x4ba7136184d36b24,
0x4ba8aac79c47268f,0x4ba8d9145b5773bf,0x4baa9ec731db7c5a,0x4bab5441ee104c98,0x4bb0ae58a6ebb474,0x4bb1091605061c93,0x4bb2a2583c800a3f,0x4bb47f31728c3972,
0x4bb4d9eed0a6a191,0x4bb54bd28e493048,0x4bb6014d4a7e0086,0x4bb6b6c806b2d0c4,0x4bb8aac79c47268f,0x4bb90584fa618eae,0x4bbb5441ee104c98,0x4bbf7fd817cb39b5,
0x4bc00406aadc11bc,0x4bc0272aa9c73166,0x4bc075ea687ea073,0x4bc0973247638ddc,0x4bc0ae58a6ebb474,0x4bc114a934ca2fdf,0x4bc12bcf94525677,0x4bc14e89239e905b,
0x4bc2194e1f5554f0,0x4bc275e79d75ef50,0x4bc2a2583c800a3f,0x4bc3143bfa2298f6,0x4bc47f31728c3972,0x4bc4d9eed0a6a191,0x4bc54bd28e493048,0x4bc821bd7f1c7140,
0x4bcb5441ee104c98,0x4bcc78ef68a3adc0,0x4bce86c65d0427f0,0x4bcf7fd817cb39b5,0x4bd04e06e8beb592,0x4bd062e6b8a1c423,0x4bd0973247638ddc,0x4bd0a8c446d91db1,
0x4bd0c93746803f8e,0x4bd114a934ca2fdf,0x4bd12bcf94525677,0x4bd15840335c7166,0x4bd175302ac6a1a4,0x4bd2a2583c800a3f,0x4bd3143bfa2298f6,0x4bd47f31728c3972,
0x4bd54bd28e493048,0x4bd6af57869a07c0,0x4bd821bd7f1c7140,0x4bd84a40a64ab4ca,0x4bd99423779edac0,0x4bdb5441ee104c98,0x4bdbb4c8e40cbe5d,0x4bde86c65d0427f0,
0x4bdf7fd817cb39b5,0x4be114a934ca2fdf,0x4be175302ac6a1a4,0x4be23c07aea18ed4,0x4be2a2583c800a3f,0x4be47f31728c3972,0x4be4dfb86888ab37,0x4be54608f66726a2,
0x4be54bd28e493048,0x4be84a40a64ab4ca,0x4be8500a3e2cbe70,0x4beb5441ee104c98,0x4bebb4c8e40cbe5d,0x4bef1f5121cec7f0,0x4bf114a934ca2fdf,0x4bf175302ac6a1a4,
0x4bf3ecf49b990c61,0x4bf47f31728c3972,0x4bf5403f5e851cfc,0x4bf7577cd95b15f4,0x4bf84a40a64ab4ca,0x4bfa2fc84029f276,0x4bfa904f3626643b,0x4bfb5441ee104c98,
0x4bfbb4c8e40cbe5d,0x4bff1f5121cec7f0,0x4c00090a775f3363,0x4c00b7070abec2ed,0x4c0114a934ca2fdf,0x4c01465f15c0eb2b,0x4c0175302ac6a1a4,0x4c023c07aea18ed4,
0x4c03be23869355e8,0x4c03ecf49b990c61,0x4c047f31728c3972,0x4c05d27c35784a0d,0x4c07577cd95b15f4,0x4c084a40a64ab4ca,0x4c08500a3e2cbe70,0x4c0b5441ee104c98,
0x4c0f1f5121cec7f0,0x4c10090a775f3363,0x4c10826c5dd702ce,0x4c11a6e60bbd5cf0,0x4c11faff897c1fe2,0x4c137392b5213cf6,0x4c13ecf49b990c61,0x4c14980c63079718,
0x4c17577cd95b15f4,0x4c178932ba51d140,0x4c184a40a64ab4ca,0x4c18c3a28cc28435,0x4c1f1f5121cec7f0,0x4c20090a775f3363,0x4c202e52e0183fdc,0x4c20f24598022839,
0x4c21819da3045077,0x4c21a6e60bbd5cf0,0x4c21f176dd2f75e2,0x4c21faff897c1fe2,0x4c237392b5213cf6,0x4c2522a017e36a56,0x4c278932ba51d140,0x4c284a40a64ab4ca,
0x4c29068a3c1d4354,0x4c2af87f4e3a2fd3,0x4c2c2e2aca848dc8,0x4c2f1f5121cec7f0,0x4c2fe628a5a9b520,0x4c30ef60cc112366,0x4c31819da3045077,0x4c31faff897c1fe2,
0x4c32250c485b815b,0x4c32edc3566bbeb8,0x4c335ab7c4a5df50,0x4c337392b5213cf6,0x4c3466568210dbcc,0x4c3522a017e36a56,0x4c3580c4e2ccb19b,0x4c361563e4d3092c,
0x4c39068a3c1d4354,0x4c393d04733a53a0,0x4c397fec229512bf,0x4c3af87f4e3a2fd3,0x4c3c2e2aca848dc8,0x4c3e7e44a78ac18c,0x4c3f1f5121cec7f0,0x4c40672f42487aa8,
0x4c41819da3045077,0x4c419cdabe92d89d,0x4c41faff897c1fe2,0x4c437392b5213cf6,0x4c4522a017e36a56,0x4c4580c4e2ccb19b,0x4c45dee9adb5f8e0,0x4c483ca2188370b7,
0x4c49068a3c1d4354,0x4c4af87f4e3a2fd3,0x4c4c2e2aca848dc8,0x4c4e7e44a78ac18c,0x4c4f1f5121cec7f0,0x4c5030b50b2b6a5c,0x4c50672f42487aa8,0x4c5158c1f9ae843e,
0x4c519cdabe92d89d,0x4c51faff897c1fe2,0x4c5280cee8319e20,0x4c52c4e7ad15f27f,0x4c53230c77ff39c4,0x4c538ecfd0afc51c,0x4c5522a017e36a56,0x4c55dee9adb5f8e0,
0x4c56deb37da81129,0x4c583ca2188370b7,0x4c587283c4dbb663,0x4c59068a3c1d4354,0x4c5af87f4e3a2fd3,0x4c5c2e2aca848dc8,0x4c5e7e44a78ac18c,0x4c5fdc334266211a,
0x4c6030b50b2b6a5c,0x4c60672f42487aa8,0x4c60900aeb9e46e1,0x4c60c4bb826cf74d,0x4c6159f30f38197e,0x4c61c51ddd23da36,0x4c6280cee8319e20,0x4c62c4e7ad15f27f,
0x4c638ecfd0afc51c,0x4c65dee9adb5f8e0,0x4c66deb37da81129,0x4c687283c4dbb663,0x4c69068a3c1d4354,0x4c693d04733a53a0,0x4c6e7e44a78ac18c,0x4c6f2d3bf4f87153,
0x4c6fdc334266211a,0x4c7014df64d81796,0x4c7030b50b2b6a5c,0x4c70672f42487aa8,0x4c708df505ed81b1,0x4c709d10eea0c054,0x4c70c4bb826cf74d,0x4c7116268fb62a6f,
0x4c7280cee8319e20,0x4c72c4e7ad15f27f,0x4c74c4552a48f069,0x4c74d1cd955f01d4,0x4c75dee9adb5f8e0,0x4c76deb37da81129,0x4c79068a3c1d4354,0x4c7b05f7b950413e,
0x4c7bc26771d40270,0x4c7e4568455a86c0,0x4c7e7e44a78ac18c,0x4c7f2d3bf4f87153,0x4c80672f42487aa8,0x4c809d10eea0c054,0x4c80b801c4cce32a,0x4c80d2f29af90600,
0x4c8116268fb62a6f,0x4c815980a7248186,0x4c81aa40185050b4,0x4c82ed50ee5826c0,0x4c8381576599b3b1,0x4c84c4552a48f069,0x4c84d1cd955f01d4,0x4c85dee9adb5f8e0,
0x4c864aad06668438,0x4c86deb37da81129,0x4c878daacb15c0f0,0x4c8b05f7b950413e,0x4c8bc26771d40270,0x4c8cc21e306d8165,0x4c8e7e44a78ac18c,0x4c909d10eea0c054,
0x4c90d2f29af90600,0x4c90edd05fcc8f82,0x4c915980a7248186,0x4c91aa40185050b4,0x4c91e021c4a89660,0x4c92b76f41ffe114,0x4c9315a71e41c1ad,0x4c9358ee24577f70,
0x4c94c4552a48f069,0x4c96deb37da81129,0x4c97654b127fd959,0x4c978daacb15c0f0,0x4c99d068d70ac947,0x4c9bc26771d40270,0x4c9cc21e306d8165,0x4c9e7e44a78ac18c,
0x4ca0672f42487aa8,0x4ca0edd05fcc8f82,0x4ca116268fb62a6f,0x4ca15980a7248186,0x4ca1aa40185050b4,0x4ca2235f42120779,0x4ca2b76f41ffe114,0x4ca315a71e41c1ad,
0x4ca358ee24577f70,0x4ca49bf571b308d2,0x4ca5dee9adb5f8e0,0x4ca6deb37da81129,0x4ca7654b127fd959,0x4ca78daacb15c0f0,0x4ca9d068d70ac947,0x4cabc26771d40270,
0x4cae7e44a78ac18c,0x4caff71f543c1d9b,0x4cb016749572d1cf,0x4cb031656b9ef4a5,0x4cb108b7ad4c65ae,0x4cb1aa40185050b4,0x4cb274237793fcfc,0x4cb2b76f41ffe114,
0x4cb3cb583f0f66ff,0x4cb6deb37da81129,0x4cb7654b127fd959,0x4cb78daacb15c0f0,0x4cb8578e2a596d38,0x4cb89ad9f4c55150,0x4cbb6ae968f21762,0x4cbe4862fb327be0,
0x4cbe7e44a78ac18c,0x4cbff71f543c1d9b,0x4cc00905b3090d0e,0x4cc1a38644f05b29,0x4cc230d7ad2818e4,0x4cc274237793fcfc,0x4cc3cb583f0f66ff,0x4cc5877eb62ca726,
0x4cc6bd0d98721f1d,0x4cc6deb37da81129,0x4cc8578e2a596d38,0x4cc89ad9f4c55150,0x4cc9a8091e74e1b0,0x4ccb6ae968f21762,0x4cce7e44a78ac18c,0x4cd0ea75d847a7e7,
0x4cd20f31c7f226d8,0x4cd230d7ad2818e4,0x4cd241aa9fc311ea,0x4cd274237793fcfc,0x4cd3cb583f0f66ff,0x4cd511ba13efd7fc,0x4cd6bd0d98721f1d,0x4cd6deb37da81129,
0x4cd814425fed8920,0x4cd8578e2a596d38,0x4cd89ad9f4c55150,0x4cdb6ae968f21762,0x4cde75db2e3d4509,0x4cde7e44a78ac18c,0x4ce08deda1f34e46,0x4ce0ea75d847a7e7,
0x4ce20f31c7f226d8,0x4ce241aa9fc311ea,0x4ce274237793fcfc,0x4ce54c9c650e3f91,0x4ce55505de5bbc14,0x4ce615a7f15b285d,0x4ce6deb37da81129,0x4ce814425fed8920,
0x4ce8578e2a596d38,0x4ce89ad9f4c55150,0x4ceb6ae968f21762,0x4cee75db2e3d4509,0x4cee7e44a78ac18c,0x4cefff88cd899a1e,0x4cf0082de0124992,0x4cf0c06679c43958,
0x4cf1e58e52ea1a07,0x4cf241aa9fc311ea,0x4cf2527d925e0af0,0x4cf54c9c650e3f91,0x4cf55505de5bbc14,0x4cf615a7f15b285d,0x4cf8578e2a596d38,0x4cf92099b6a65604,
0x4cfaaa4755f2ab19,0x4cfb6ae968f21762,0x4cff9b03076325b8,0x4d00c06679c43958,0x4d0114194d4fb4b8,0x4d01e58e52ea1a07,0x4d02f9e3397501b0,0x4d030ab62c0ffab6,
0x4d04f080183547ae,0x4d055505de5bbc14,0x4d073acfca81090c,0x4d0aaa4755f2ab19,0x4d0b6ae968f21762,0x4d0c90114217f811,0x4d0e5c9ec254cf80,0x4d0f9b03076325b8,
0x4d10082de0124992,0x4d102134573d0e3c,0x4d10c06679c43958,0x4d1114194d4fb4b8,0x4d112d55b9382a41,0x4d11e58e52ea1a07,0x4d12527d925e0af0,0x4d12d87348fcc083,
0x4d13fd9b2222a132,0x4d173acfca81090c,0x4d19cc4f14c2e375,0x4d1b6ae968f21762,0x4d1dfc68b333f1cb,0x4d1e5c9ec254cf80,0x4d1f9b03076325b8,0x4d20c06679c43958,
0x4d216c1bd7e0c6c9,0x4d21e58e52ea1a07,0x4d229143b106a778,0x4d22d87348fcc083,0x4d23fd9b2222a132,0x4d25d8eeb3d67ebe,0x4d2647ead46e6290,0x4d273acfca81090c,
0x4d27b442458a5c4a,0x4d29cc4f14c2e375,0x4d2db5391b3dd8c0,0x4d2dfc68b333f1cb,0x4d2f9b03076325b8,0x4d30c06679c43958,0x4d31e58e52ea1a07,0x4d32d87348fcc083,
0x4d33c0e1e49df793,0x4d33fd9b2222a132,0x4d35d8eeb3d67ebe,0x4d37b442458a5c4a,0x4d3be45be3fb6aa0,0x4d3cd205acd55966,0x4d3dfc68b333f1cb,0x4d3f9b03076325b8,
0x4d40516a592c5586,0x4d417bcd5f8aedeb,0x4d41e58e52ea1a07,0x4d422247906ec3a6,0x4d42a63065e98650,0x4d43c0e1e49df793,0x4d44eb44eafc8ff8,0x4d4527fe28813997,
0x4d45d8eeb3d67ebe,0x4d47b442458a5c4a,0x4d482db4c093af88,0x4d49557a3055ec12,0x4d4be45be3fb6aa0,0x4d4cd205acd55966,0x4d4f9b03076325b8,0x4d516eb96e7d22a4,
0x4d53c0e1e49df793,0x4d54eb44eafc8ff8,0x4d55d8eeb3d67ebe,0x4d564fc398437621,0x4d57b442458a5c4a,0x4d59557a3055ec12,0x4d5b13bfee95a2bc,0x4d5be45be3fb6aa0,
0x4d5cd205acd55966,0x4d5dbfaf75af482c,0x4d5f9b03076325b8,0x4d604c2f2bf39dd0,0x4d611ccb215965b4,0x4d616eb96e7d22a4,0x4d625c633757116a,0x4d632cff2cbcd94e,
0x4d65d8eeb3d67ebe,0x4d69557a3055ec12,0x4d6a137eacb8fc80,0x4d6a349d0f75c767,0x4d6b13bfee95a2bc,0x4d6b8a94d3029a1f,0x4d6be45be3fb6aa0,0x4d6cd205acd55966,
0x4d708f968f5d474f,0x4d716eb96e7d22a4,0x4d744ecff2f03a0d,0x4d75d8eeb3d67ebe,0x4d77973472163568,0x4d79557a3055ec12,0x4d7a349d0f75c767,0x4d7b13bfee95a2bc,
0x4d7be45be3fb6aa0,0x4d807cc6858d980b,0x4d808f968f5d474f,0x4d809e1d79175ac0,0x4d816eb96e7d22a4,0x4d81b1675590a80e,0x4d836fad13d05eb8,0x4d841aa8f596c814,
0x4d844ecff2f03a0d,0x4d84c5a4d75d3170,0x4d8741b6813300ba,0x4d87973472163568,0x4d89215332fc7a19,0x4d8a349d0f75c767,0x4d8b13bfee95a2bc,0x4d8be45be3fb6aa0,
0x4d8d27839db88e14,0x4d907cc6858d980b,0x4d90e0cb602ae02a,0x4d91b1675590a80e,0x4d92156c302df02d,0x4d931a2f22ed2a0a,0x4d934a0d00310030,0x4d936fad13d05eb8,
0x4d944ecff2f03a0d,0x4d94a44de3d36ebb,0x4d96ec38904fcc0c,0x4d9741b6813300ba,0x4d97973472163568,0x4d9b13bfee95a2bc,0x4d9c1da1c6271868,0x4d9d27839db88e14,
0x4d9e904b6b151010,0x4da09e1d79175ac0,0x4da1312a6c3bd909,0x4da1a7ff50a8d06c,0x4da1b1675590a80e,0x4da31a2f22ed2a0a,0x4da36fad13d05eb8,0x4da44ecff2f03a0d,
0x4da4a44de3d36ebb,0x4da741b6813300ba,0x4da7973472163568,0x4da84b9858c47666,0x4da9afac23ad0c91,0x4dab13bfee95a2bc,0x4dac1da1c6271868,0x4dae904b6b151010,
0x4db08f968f5d474f,0x4db101b7715652e1,0x4db1312a6c3bd909,0x4db16eb96e7d22a4,0x4db265cb3c3ee90c,0x4db31a2f22ed2a0a,0x4db36fad13d05eb8,0x4db44ecff2f03a0d,
0x4db51639549d524e,0x4db741b6813300ba,0x4db9afac23ad0c91,0x4dbb13bfee95a2bc,0x4dbb98b0da5e5d92,0x4dbbe45be3fb6aa0,0x4dbc1da1c6271868,0x4dbe491ef2bcc6d4,
0x4dbe904b6b151010,0x4dc0817a880183dc,0x4dc101b7715652e1,0x4dc15be964ad7360,0x4dc22806c8ce7772,0x4dc265cb3c3ee90c,0x4dc36fad13d05eb8,0x4dc38766914321cc,
0x4dc51639549d524e,0x4dc6ff3e0b4ea34f,0x4dc741b6813300ba,0x4dca68c40ccf3960,0x4dcac56ab9f7e3c7,0x4dcc1da1c6271868,0x4dce491ef2bcc6d4,0x4dd03a4e0fa93aa0,
0x4dd192851bd86f41,0x4dd265cb3c3ee90c,0x4dd33322fd48b212,0x4dd51639549d524e,0x4dd6ff3e0b4ea34f,0x4dd741b6813300ba,0x4dd85775177dd7f0,0x4ddac56ab9f7e3c7,
0x4ddc1da1c6271868,0x4dde491ef2bcc6d4,0x4dded3fe3de2326f,0x4de03a4e0fa93aa0,0x4de0a0f9f02e1f23,0x4de101b7715652e1,0x4de192851bd86f41,0x4de33322fd48b212,
0x4de36fad13d05eb8,0x4de448e193938948,0x4de51639549d524e,0x4de62bf7eae82984,0x4de6b6d7360d951f,0x4de741b6813300ba,0x4dec1da1c6271868,0x4decccb47bed0b1b,
0x4dee491ef2bcc6d4,0x4deed3fe3de2326f,0x4df00a3de64f51fe,0x4df03a4e0fa93aa0,0x4df058931aed10f3,0x4df0a0f9f02e1f23,0x4df0fbc911f9a21c,0x4df1d4fd91bcccac,
0x4df24197d19e61f4,0x4df33322fd48b212,0x4df62bf7eae82984,0x4df6b6d7360d951f,0x4df7c6a76cfbbb90,0x4dfcccb47bed0b1b,0x4dfdd0595ce79ec5,0x4dfe3165754a03c0,
0x4dfe491ef2bcc6d4,0x4dfed3fe3de2326f,0x4e000a3de64f51fe,0x4e003a4e0fa93aa0,0x4e00462ace629c2a,0x4e0083037c247a0d,0x4e00d10a198807c5,0x4e012bd93b538abe,
0x4e013df2f0a3ce4a,0x4e015be964ad7360,0x4e033322fd48b212,0x4e06b6d7360d951f,0x4e09c1c5d8fd501d,0x4e0cccb47bed0b1b,0x4e0d4e86ec6a54f0,0x4e0dd0595ce79ec5,
0x4e0e3165754a03c0,0x4e0e491ef2bcc6d4,0x4e100a3de64f51fe,0x4e100adb14c3b478,0x4e103a4e0fa93aa0,0x4e107186f54898fb,0x4e1083037c247a0d,0x4e10bc2080268475,
0x4e112bd93b538abe,0x4e122f7e1c4e1e68,0x4e133322fd48b212,0x4e1436c7de4345bc,0x4e1840d4f4d98381,0x4e194479d5d4172b,0x4e19aaf8213920c0,0x4e19c1c5d8fd501d,
0x4e1b473d2a752d9c,0x4e1cccb47bed0b1b,0x4e1d4e86ec6a54f0,0x4e1e3165754a03c0,0x4e2028345a58f714,0x4e203a4e0fa93aa0,0x4e20bc2080268475,0x4e20ed3339beee45,
0x4e21a9253e7cc3b0,0x4e222f7e1c4e1e68,0x4e233322fd48b212,0x4e24324170ef34d9,0x4e2436c7de4345bc,0x4e25315fe495b7a0,0x4e26bb5da361a602,0x4e2840d4f4d98381,
0x4e294479d5d4172b,0x4e2a86c4b863474e,0x4e2c41d530c79f80,0x4e2cccb47bed0b1b,0x4e30ae8d382a51cc,0x4e30ed3339beee45,0x4e322f7e1c4e1e68,0x4e333322fd48b212,
0x4e33764f6c315f6e,0x4e3436c7de4345bc,0x4e34756ddfd7e235,0x4e35fae5314fbfb4,0x4e363e11a0386d10,0x4e36dcf3dad5fcb0,0x4e394479d5d4172b,0x4e3a86c4b863474e,
0x4e3cccb47bed0b1b,0x4e3d4e86ec6a54f0,0x4e40ae8d382a51cc,0x4e41cf41e3452b41,0x4e42126e522dd89d,0x4e422f7e1c4e1e68,0x4e42511453c27516,0x4e433322fd48b212,
0x4e44756ddfd7e235,0x4e45fae5314fbfb4,0x4e463e11a0386d10,0x4e46dcf3dad5fcb0,0x4e47bf02845c39ac,0x4e48b1dc499ca1ff,0x4e4a86c4b863474e,0x4e4cccb47bed0b1b,
0x4e4d4e86ec6a54f0,0x4e507c2be4fbcfc7,0x4e52511453c27516,0x4e52fa9f52e722d3,0x4e533322fd48b212,0x4e56a47030746d71,0x4e56dcf3dad5fcb0,0x4e574dfb2f991b2e,
0x4e58b1dc499ca1ff,0x4e5a86c4b863474e,0x4e5cccb47bed0b1b,0x4e5d4e86ec6a54f0,0x4e5e309595f091ec,0x4e5f12a43f76cee8,0x4e601f00d78c633d,0x4e606b60c941a470,
0x4e607c2be4fbcfc7,0x4e6125b6e4207d84,0x4e62511453c27516,0x4e6278cce269d8fe,0x4e62fa9f52e722d3,0x4e636ba6a7aa4151,0x4e64cf87c1adc822,0x4e66a47030746d71,
0x4e66dcf3dad5fcb0,0x4e674dfb2f991b2e,0x4e6a86c4b863474e,0x4e6d4e86ec6a54f0,0x4e6e309595f091ec,0x4e6f12a43f76cee8,0x4e6f374ba284ac33,0x4e701f00d78c633d,
0x4e706b60c941a470,0x4e707c2be4fbcfc7,0x4e7125b6e4207d84,0x4e717216d5d5beb7,0x4e718cd01539c308,0x4e72511453c27516,0x4e72fa9f52e722d3,0x4e7401555f7b3d1a,
0x4e74cf87c1adc822,0x4e76dcf3dad5fcb0,0x4e7a86c4b863474e,0x4e7d4e86ec6a54f0,0x4e7d626333be06e4,0x4e7f374ba284ac33,0x4e801f00d78c633d,0x4e8035ee4a799bce,
0x4e806b60c941a470,0x4e80d58b25f47091,0x4e8125b6e4207d84,0x4e817216d5d5beb7,0x4e818cd01539c308,0x4e82938621cddd4f,0x4e82fa9f52e722d3,0x4e83f39b6f5a9860,
0x4e84686e9094829e,0x4e86dcf3dad5fcb0,0x4e8bc1075d840457,0x4e8d626333be06e4,0x4e8e9ca5d8dec3ed,0x4e9125b6e4207d84,0x4e918cd01539c308,0x4e91c05cadc665ca,
0x4e92938621cddd4f,0x4e92fa9f52e722d3,0x4e94686e9094829e,0x4e9609ca66ce852b,0x4e96dcf3dad5fcb0,0x4e975dd358359395,0x4e97ab263d0887b8,0x4e9a53381fd6a48c,
0x4e9bc1075d840457,0x4e9d626333be06e4,0x4e9e9ca5d8dec3ed,0x4ea0d36ced789ce4,0x4ea125b6e4207d84,0x4ea18cd01539c308,0x4ea1c05cadc665ca,0x4ea25b02776c4e10,
0x4ea2938621cddd4f,0x4ea2fa9f52e722d3,0x4ea4b5c1756776c1,0x4ea5f0041a8833ca,0x4ea6dcf3dad5fcb0,0x4ea75dd358359395,0x4ea7ab263d0887b8,0x4ea879589f3b12c0,
0x4ea98f6d5adccbf6,0x4eabc1075d840457,0x4eadf2a1602b3cb8,0x4eb00fa2287ec44e,0x4eb09a6fc988342d,0x4eb0d36ced789ce4,0x4eb125b6e4207d84,0x4eb12aeab2bcd6bd,
0x4eb14474423bbb62,0x4eb18cd01539c308,0x4eb2938621cddd4f,0x4eb3be6a17e0fb69,0x4eb5408f1670e6a0,0x4eb6dcf3dad5fcb0,0x4eb879589f3b12c0,0x4eb98f6d5adccbf6,
0x4ebbc1075d840457,0x4ebdf2a1602b3cb8,0x4ec04d59a17cacc6,0x4ec12aeab2bcd6bd,0x4ec18cd01539c308,0x4ec21d0e41a6f8dc,0x4ec3be6a17e0fb69,0x4ec52c39558e5b34,
0x4ec675f908206d8a,0x4ec8a7930ac7a5eb,0x4ec98f6d5adccbf6,0x4eccfb4a02a4c160,0x4ecdf2a1602b3cb8,0x4ecfc256005588ce,0x4ed0bebc116aee5e,0x4ed18cd01539c308,
0x4ed2087bc3fd00b4,0x4ed298b9f06a3688,0x4ed2b7a4dc1b05f3,0x4ed3be6a17e0fb69,0x4ed49bfb29212560,0x4ed52c39558e5b34,0x4ed5b22e432694f4,0x4ed675f908206d8a,
0x4ed8a7930ac7a5eb,0x4ed8cba295e2f360,0x4eda7747aaf1f201,0x4edc65e736cd0d82,0x4eddf2a1602b3cb8,0x4ee00fa2287ec44e,0x4ee019dc3821e533,0x4ee04d59a17cacc6,
0x4ee071878afbb099,0x4ee0bebc116aee5e,0x4ee10bffc70c0752,0x4ee13533f191d2d1,0x4ee18cd01539c308,0x4ee1f147c76bee58,0x4ee298b9f06a3688,0x4ee2b7a4dc1b05f3,
0x4ee3be6a17e0fb69,0x4ee49bfb29212560,0x4ee4e93edec23e54,0x4ee5af9bf37155ef,0x4ee675f908206d8a,0x4ee879589f3b12c0,0x4ee8cba295e2f360,0x4eec65e736cd0d82,
0x4eecfb4a02a4c160,0x4eedf2a1602b3cb8,0x4eef5dde4e235d7e,0x4ef106db27a18948,0x4ef1cfca8c05dfe8,0x4ef1f147c76bee58,0x4ef272181599aa0e,0x4ef2b7a4dc1b05f3,
0x4ef4c7c1a35c2fe4,0x4ef4e93edec23e54,0x4ef5af9bf37155ef,0x4ef675f908206d8a,0x4ef6b3cedf820c60,0x4ef7bfb8bab27fe0,0x4efc65e736cd0d82,0x4efdf2a1602b3cb8,
0x4efea83fd7274d1b,0x4eff5dde4e235d7e,0x4f01f147c76bee58,0x4f02b7a4dc1b05f3,0x4f04e93edec23e54,0x4f05af9bf37155ef,0x4f0675f908206d8a,0x4f096df01f76bd86,
0x4f0a238e9672cde9,0x4f0a2bede54c5185,0x4f0ae9ebab21e584,0x4f0df2a1602b3cb8,0x4f0ea83fd7274d1b,0x4f11334a01965a59,0x4f11f147c76bee58,0x4f1212c502d1fcc8,
0x4f12b7a4dc1b05f3,0x4f137172fa83d824,0x4f14551da32c3c61,0x4f15af9bf37155ef,0x4f166d99b946e9ee,0x4f1675f908206d8a,0x4f17edc4ec5ed3ba,0x4f196df01f76bd86,
0x4f1a2bede54c5185,0x4f1df2a1602b3cb8,0x4f2081db32070bc4,0x4f20afe763b35f9e,0x4f217214d0f5b56b,0x4f21f147c76bee58,0x4f220206651ef590,0x4f237172fa83d824,
0x4f242f70c0596c23,0x4f25af9bf37155ef,0x4f27edc4ec5ed3ba,0x4f2802b3317e9cc0,0x4f2845ada84ab9a0,0x4f2a2bede54c5185,0x4f2c6a16de39cf50,0x4f306ad51930e1d7,
0x4f31e8e878926abc,0x4f31f147c76bee58,0x4f3311682dbdddb1,0x4f337172fa83d824,0x4f342f70c0596c23,0x4f366fb18cfd4ad5,0x4f37e135f6188e50,0x4f37edc4ec5ed3ba,
0x4f3a2bede54c5185,0x4f3c6a16de39cf50,0x4f3d2a2c77c5c436,0x4f3dea421151b91c,0x4f42536a67e849b2,0x4f4311682dbdddb1,0x4f437172fa83d824,0x4f44f19e2d9bc1f0,
0x4f454f9126ab5b7c,0x4f469eab0985179b,0x4f47edc4ec5ed3ba,0x4f484dcfb924ce2d,0x4f4a2bede54c5185,0x4f4c6a16de39cf50,0x4f510450850e8d93,0x4f514ac6bfda40bc,
0x4f51c24e4ae42192,0x4f51f147c76bee58,0x4f52536a67e849b2,0x4f5311682dbdddb1,0x4f542f70c0596c23,0x4f54d8099ba17aa6,0x4f54f19e2d9bc1f0,0x4f554f9126ab5b7c,
0x4f569eab0985179b,0x4f57edc4ec5ed3ba,0x4f5c6a16de39cf50,0x4f5f084aa3ed478e,0x4f60d76edc3d21b4,0x4f610450850e8d93,0x4f614ac6bfda40bc,0x4f61af01340cfcfd,
0x4f61c24e4ae42192,0x4f62536a67e849b2,0x4f6311682dbdddb1,0x4f6388efb8c7be87,0x4f64d8099ba17aa6,0x4f64f19e2d9bc1f0,0x4f669eab0985179b,0x4f68654c7768b490,
0x4f6af24af9fb6920,0x4f6c6a16de39cf50,0x4f6f440e697237f9,0x4f708557ebaaea77,0x4f70f7863c1169ee,0x4f714ac6bfda40bc,0x4f71c24e4ae42192,0x4f728263e4701678,
0x4f7388efb8c7be87,0x4f749c45d61c8a3b,0x4f74d8099ba17aa6,0x4f769eab0985179b,0x4f78654c7768b490,0x4f78adda85eac8a0,0x4f79f02a1fc7611a,0x4f7b7b07c8260da4,
0x4f7c6a16de39cf50,0x4f7f440e697237f9,0x4f808557ebaaea77,0x4f814ac6bfda40bc,0x4f81c24e4ae42192,0x4f81d471ce84a696,0x4f824bf9598e876c,0x4f8388efb8c7be87,
0x4f8392017a980109,0x4f846082109799d0,0x4f84d8099ba17aa6,0x4f859d786fd0d0eb,0x4f869eab0985179b,0x4f88654c7768b490,0x4f8af15cb97ba7ca,0x4f8c6a16de39cf50,
0x4f8f440e697237f9,0x4f908557ebaaea77,0x4f908e69ad7b2cf9,0x4f91c24e4ae42192,0x4f91d471ce84a696,0x4f924bf9598e876c,0x4f9388efb8c7be87,0x4f9392017a980109,
0x4f946082109799d0,0x4f951856420e8c52,0x4f9558a2e87b9dfe,0x4f969eab0985179b,0x4f98654c7768b490,0x4f9af15cb97ba7ca,0x4f9c6a16de39cf50,0x4fa08e69ad7b2cf9,
0x4fa0c5a49217fc23,0x4fa1d471ce84a696,0x4fa20bacb32175c0,0x4fa24bf9598e876c,0x4fa392017a980109,0x4fa46082109799d0,0x4fa51856420e8c52,0x4fa69eab0985179b,
0x4fa8654c7768b490,0x4fafa4816315d27b,0x4fb0956b15462ee2,0x4fb0c5a49217fc23,0x4fb0ca2d73001d64,0x4fb20bacb32175c0,0x4fb2305be7401fd7,0x4fb24bf9598e876c,
0x4fb51856420e8c52,0x4fb662e744002730,0x4fb67e84b64e8ec5,0x4fb69eab0985179b,0x4fb8654c7768b490,0x4fbb11830cb230a0,0x4fbb2196364d750b,0x4fbdfe064868be5c,
0x4fbfa4816315d27b,0x4fc0956b15462ee2,0x4fc0c5a49217fc23,0x4fc1eb865feaecea,0x4fc20bacb32175c0,0x4fc21bbfdcbcba2b,0x4fc24bf9598e876c,0x4fc2d6e0abaa5d9a,
0x4fc4e81cc53cbf11,0x4fc51856420e8c52,0x4fc68e97dfe9d330,0x4fc7e4b32a8e9138,0x4fc824ffd0fba2e4,0x4fc8654c7768b490,0x4fcb2196364d750b,0x4fcfa4816315d27b,
0x4fd0956b15462ee2,0x4fd1b625e078463e,0x4fd20bacb32175c0,0x4fd21bbfdcbcba2b,0x4fd2d6e0abaa5d9a,0x4fd2e6f3d545a205,0x4fd44d224985a478,0x4fd51856420e8c52,
0x4fd6aebe33205c06,0x4fd824ffd0fba2e4,0x4fd8e0209fe94653,0x4fdb2196364d750b,0x4fdc4251017f8c67,0x4fde3e52eed5d008,0x4fdfa4816315d27b,0x4fe0956b15462ee2,
0x4fe0eaf1e7ef5e64,0x4fe1b625e078463e,0x4fe20bacb32175c0,0x4fe21bbfdcbcba2b,0x4fe24683461151ec,0x4fe2d6e0abaa5d9a,0x4fe57df03e53003f,0x4fe824ffd0fba2e4,
0x4fe8e0209fe94653,0x4feb2196364d750b,0x4fec4251017f8c67,0x4feca7eafdc40054,0x4ff05a94825652b6,0x4ff0956b15462ee2,0x4ff0eaf1e7ef5e64,0x4ff1b625e078463e,
0x4ff1fe549344cc15,0x4ff20bacb32175c0,0x4ff24683461151ec,0x4ff2d6e0abaa5d9a,0x4ff72f086f1e2349,0x4ff8e0209fe94653,0x4ffa9138d0b4695d,0x4ffb2196364d750b,
0x4ffb69c4e919fae2,0x4ffc4251017f8c67,0x4ffee96094282f0c,0x50001265cf89ccdf,0x50005a94825652b6,0x5000956b15462ee2,0x500125c87adf3a90,0x5001b625e078463e,
0x5001fe549344cc15,0x50020bacb32175c0,0x50024683461151ec,0x50068ff564c92090,0x5008e0209fe94653,0x5009b8acb84ed7d8,0x500a9138d0b4695d,0x500b2196364d750b,
0x500b69c4e919fae2,0x501125c87adf3a90,0x5011fe549344cc15,0x50124683461151ec,0x50156f3a99970934,0x50168ff564c92090,0x5016d8241795a667,0x501ad9678380ef34,
0x501b2196364d750b,0x5020ebf80b96d86c,0x5020fa564f1afc1f,0x502125c87adf3a90,0x50224683461151ec,0x50234a818a3b21e2,0x5023673e11436948,0x5024230da2a0b367,
0x50268ff564c92090,0x5026d8241795a667,0x502ad9678380ef34,0x502b2196364d750b,0x5030136bf33146e7,0x50303fe4429cff60,0x5030c1e364b1e75b,0x5030ebf80b96d86c,
0x5030fa564f1afc1f,0x503125c87adf3a90,0x50317c55712fe41a,0x50324683461151ec,0x50333bf7961b1483,0x5033673e11436948,0x5033bdf6b82ffc7e,0x5034fb99bb0644ec,
0x50368ff564c92090,0x5036d8241795a667,0x503b2196364d750b,0x503bfa224eb30690,0x503df394e2e6991d,0x50401265cf89ccdf,0x5040136bf33146e7,0x504021f5e7515446,
0x504030ab8c0d4b51,0x50403e86bdbdb200,0x50405a94825652b6,0x504095c2767e023a,0x5040ddafa060a98f,0x5040ebcc5afaeec0,0x5040ebf80b96d86c,0x504125c87adf3a90,
0x50417c55712fe41a,0x50420bacb32175c0,0x504254f761e36a75,0x50433bf7961b1483,0x5043bdf6b82ffc7e,0x5045a8b3a7a79800,0x50468ff564c92090,0x5047773721eaa920,
0x504945ba9c2dba40,0x504bfa224eb30690,0x504df394e2e6991d,0x504f5c9439332b26,0x505002bfdf7450a2,0x50501265cf89ccdf,0x5050136bf33146e7,0x505021f5e7515446,
0x50503c7a766ebdf0,0x50503e86bdbdb200,0x50505a94825652b6,0x505095298c5c5060,0x5050ddafa060a98f,0x5050ebf80b96d86c,0x505125c87adf3a90,0x50520bacb32175c0,
0x505254f761e36a75,0x5055a8b3a7a79800,0x50568ff564c92090,0x5057773721eaa920,0x50598d4578b193d2,0x505af644cefe25db,0x505cdd4b7d36a700,0x505f5c9439332b26,
0x5060136bf33146e7,0x5060ebf80b96d86c,0x506125c87adf3a90,0x506254f761e36a75,0x50668ff564c92090,0x5066bb46cc186fc0,0x50682446226501c9,0x50698d4578b193d2,
0x506af644cefe25db,0x507021d522dc6505,0x5070ebf80b96d86c,0x50715f8311d9a7de,0x507254f761e36a75,0x5073dadeefd42d90,0x5073de73c5ab77e2,0x5073e9481f7f4bae,
0x507547731bf809eb,0x50768ff564c92090,0x5076bb46cc186fc0,0x50798d4578b193d2,0x507af644cefe25db,0x507c5f44254ab7e4,0x507dddec2f3ef185,0x5080ebf80b96d86c,
0x50810c75191253d0,0x5081174972e6279c,0x50812cf2268dcf34,0x508254f761e36a75,0x5083de73c5ab77e2,0x508409c52cfac712,0x508547731bf809eb,0x50855d1bcf9fb183,
0x50868ff564c92090,0x5086b5dc9f2e85da,0x5086bb46cc186fc0,0x5086e6983367bef0,0x50898d4578b193d2,0x508c5f44254ab7e4,0x509101a0bf3e8004,0x50910c75191253d0,
0x5093de73c5ab77e2,0x5093e3ddf29561c8,0x50954208ef0e2005,0x509547731bf809eb,0x50954a28326cfede,0x5096b5dc9f2e85da,0x5096bb46cc186fc0,0x50998d4578b193d2,
0x509c5f44254ab7e4,0x509dcdada88133d3,0x50a0ebf80b96d86c,0x50a1070aec2869ea,0x50a10c75191253d0,0x50a254f761e36a75,0x50a272bf58e9f0e6,0x50a2782985d3dacc,
0x50a3de73c5ab77e2,0x50a547731bf809eb,0x50a54a28326cfede,0x50a6000268cdc25c,0x50a68ff564c92090,0x50a6b5dc9f2e85da,0x50a6bb46cc186fc0,0x50a98a90623c9edf,
0x50abac1f055ee959,0x50ac5f44254ab7e4,0x50adcdada88133d3,0x50afef3c4ba37e4d,0x50b01855de2f8e7d,0x50b04986c82d6f78,0x50b0569ae2b19052,0x50b0cb7afe1b5d08,
0x50b0f741bb2f541d,0x50b10c75191253d0,0x50b272bf58e9f0e6,0x50b3de73c5ab77e2,0x50b54a28326cfede,0x50b5a5154d9d609d,0x50b5b75e603c94a0,0x50b6000268cdc25c,
0x50b664a3fd79d160,0x50b6bb46cc186fc0,0x50bbac1f055ee959,0x50bdcdada88133d3,0x50bfef3c4ba37e4d,0x50c02514b369f006,0x50c03248de68f974,0x50c0569ae2b19052,
0x50c08a80e3246640,0x50c0b187fde1f211,0x50c3de73c5ab77e2,0x50c4944dfc0c3b60,0x50c54a28326cfede,0x50c5a5154d9d609d,0x50c60e012edb3300,0x50c6bb46cc186fc0,
0x50caca28cca06f75,0x50cdcdada88133d3,0x50cede74fa125910,0x50cfef3c4ba37e4d,0x50d02514b369f006,0x50d08001ce9a51c5,0x50d1bce522892d68,0x50d2b79e72eb7772,
0x50d328998f4ab464,0x50d4944dfc0c3b60,0x50d54a28326cfede,0x50d6000268cdc25c,0x50d62c1e6b2b78c2,0x50d7f2bff31d617d,0x50d9b9617b0f4a38,0x50daca28cca06f75,
0x50dfef3c4ba37e4d,0x50e02514b369f006,0x50e08001ce9a51c5,0x50e16e59932ab3bc,0x50e190c9202b7702,0x50e201c43c8ab3f4,0x50e2b79e72eb7772,0x50e47e3ffadd602d,
0x50e4944dfc0c3b60,0x50e54a28326cfede,0x50e6000268cdc25c,0x50e76bb6d58f4958,0x50e8379f0d1ee809,0x50eaca28cca06f75,0x50efef3c4ba37e4d,0x50f02514b369f006,
0x50f08001ce9a51c5,0x50f16e59932ab3bc,0x50f2b79e72eb7772,0x50f45bd06ddc9ce7,0x50f6000268cdc25c,0x50f649b7bd7dc278,0x50f8379f0d1ee809,0x50fa25865cc00d9a,
0x50faca28cca06f75,0x50fb2515e7d0d134,0x50fc136dac61332b,0x50fdb79fa75258a0,0x510013dcece98e63,0x51001faa86800620,0x51002514b369f006,0x5100569ae2b19052,
0x5100695fdb30063c,0x5100b187fde1f211,0x5100b87f5cc9f03e,0x51016e59932ab3bc,0x51026d552c000700,0x51026de91e3b7756,0x5104944dfc0c3b60,0x5105803aa345608f,
0x5105c9eff7f560ab,0x510649b7bd7dc278,0x5106bb46cc186fc0,0x5108379f0d1ee809,0x5108928c284f49c8,0x510a25865cc00d9a,0x510aca28cca06f75,0x510db79fa75258a0,
0x510f25bf316b1c64,0x51100d79803d008c,0x511013dcece98e63,0x5110438bf115623d,0x511078c076949b6d,0x5110b87f5cc9f03e,0x5110f8883c1cfd3a,0x51116e59932ab3bc,
0x51126de91e3b7756,0x511292c3c8937764,0x5114944dfc0c3b60,0x5115803aa345608f,0x5115c9eff7f560ab,0x511649b7bd7dc278,0x51184a0c624ae810,0x5118928c284f49c8,
0x511b09386c30d880,0x511ca5a2c71594ff,0x511db79fa75258a0,0x511f25bf316b1c64,0x511ff1f162187340,0x5120809c95f020f7,0x5120b749ce1e51da,0x5120ffc99422b392,
0x51216e59932ab3bc,0x512180c6e856b3c3,0x512236a11eb77741,0x512292c3c8937764,0x51236d78a94c3af0,0x512400e352ac3b28,0x5124dc32fabacde6,0x5125c9eff7f560ab,
0x51275c4f6510554b,0x51284a0c624ae810,0x512ca5a2c71594ff,0x512db79fa75258a0,0x512f25bf316b1c64,0x5130809c95f020f7,0x5131253f05d082d2,0x51314a19b02882e0,
0x51316e59932ab3bc,0x5132dc791d437780,0x513493186d609cfc,0x5134dc32fabacde6,0x5135c9eff7f560ab,0x51375c4f6510554b,0x51384a0c624ae810,0x513925f6d1af4a00,
0x513aeeb6134d87ea,0x513b6ecb3c80d150,0x513f25bf316b1c64,0x513f4a4c781834d9,0x5140809c95f020f7,0x5141253f05d082d2,0x51416e59932ab3bc,0x5142378949b82e0c,
0x514280a3d7125ef6,0x5142dc2bb9988fe7,0x5144dc32fabacde6,0x5145254d8814fed0,0x5145c9eff7f560ab,0x51484a0c624ae810,0x514aeeb6134d87ea,0x514b6ecb3c80d150,
0x514df7f79f96e4ec,0x514f4a4c781834d9,0x5150809c95f020f7,0x5151253f05d082d2,0x5152378949b82e0c,0x5152dc2bb9988fe7,0x5154dc32fabacde6,0x515540cad6018b0e,
0x51562e87d33c1dd3,0x51584a0c624ae810,0x515aeeb6134d87ea,0x515b6ecb3c80d150,0x515d935fc45027c4,0x515df7f79f96e4ec,0x515f4a4c781834d9,0x515f7c9865bb936d,
0x5160809c95f020f7,0x5160b2e883937f8b,0x5162053d5c14cf78,0x5162378949b82e0c,0x5167e57487042ae8,0x5167fe9a7dd5da32,0x51684a0c624ae810,0x516aeeb6134d87ea,
0x516b07dc0a1f3734,0x516df7f79f96e4ec,0x516f7c9865bb936d,0x5170809c95f020f7,0x5170b2e883937f8b,0x5171d2f16e7170e4,0x5171ec176543202e,0x5172053d5c14cf78,
0x5172378949b82e0c,0x517647adca0dcd1d,0x517679f9b7b12bb1,0x5177e57487042ae8,0x5177fe9a7dd5da32,0x51784a0c624ae810,0x517b07dc0a1f3734,0x517c7fe9d4db0e10,
0x517df7f79f96e4ec,0x51802897b6123b74,0x5180b2e883937f8b,0x5181a0a580ce1250,0x5181ec176543202e,0x5182053d5c14cf78,0x5182378949b82e0c,0x5184e8c5f623a58b,
0x518679f9b7b12bb1,0x5186868cb31a0356,0x518780dcabbd6dc0,0x5187e57487042ae8,0x5187fe9a7dd5da32,0x51884a0c624ae810,0x518a3f4229587421,0x518c7fe9d4db0e10,
0x518df7f79f96e4ec,0x5190749f704e008f,0x51913d395114c3a2,0x5192053d5c14cf78,0x51931f47b421b09d,0x51937d4b26d0a654,0x519445e507976967,0x519679f9b7b12bb1,
0x5197fe9a7dd5da32,0x5199133c18d86260,0x519a3f4229587421,0x519d3bf0ba38f97e,0x519df7f79f96e4ec,0x519f1e94f30c9db6,0x51a0dea0089f16ae,0x51a2053d5c14cf78,
0x51a256add35aed8a,0x51a31f47b421b09d,0x51a37d4b26d0a654,0x51a445e507976967,0x51a4f558f18c7d30,0x51a55fef5fa44a8c,0x51a7fe9a7dd5da32,0x51a85c9df084cfe9,
0x51a94df00ceea205,0x51ac7fe9d4db0e10,0x51af1e94f30c9db6,0x51b0dea0089f16ae,0x51b10758444225b7,0x51b1574916d3ffbc,0x51b1cff22508e8ca,0x51b2053d5c14cf78,
0x51b256add35aed8a,0x51b31f47b421b09d,0x51b445e507976967,0x51b4f558f18c7d30,0x51b55fef5fa44a8c,0x51b7fe9a7dd5da32,0x51b94df00ceea205,0x51bc7fe9d4db0e10,
0x51bf1e94f30c9db6,0x51c007f387bb37e9,0x51c0c57a11cd6764,0x51c10758444225b7,0x51c1574916d3ffbc,0x51c19c2692b14629,0x51c1cff22508e8ca,0x51c256add35aed8a,
0x51c4f558f18c7d30,0x51c7fe9a7dd5da32,0x51c83aef04f04eb9,0x51cad5901c7bd8a0,0x51cb8e97b8713bf4,0x51cc7fe9d4db0e10,0x51cf1e94f30c9db6,0x51d0a24b8184a227,
0x51d1574916d3ffbc,0x51d3e51cbf3b4eca,0x51d3f5f435058f62,0x51d46e9d433a7870,0x51d4aaf1ca54ecf7,0x51d83aef04f04eb9,0x51d98a449409168c,0x51da02eda23dff9a,
0x51da9d459c0769d8,0x51db8e97b8713bf4,0x51df1e94f30c9db6,0x51e007f387bb37e9,0x51e1574916d3ffbc,0x51e1cff22508e8ca,0x51e1e0c99ad32962,0x51e3e51cbf3b4eca,
0x51e46e9d433a7870,0x51e4aaf1ca54ecf7,0x51e5ad1b5c88ffab,0x51e672f067a29dd8,0x51e981d8d923f640,0x51eb8e97b8713bf4,0x51ec7fe9d4db0e10,0x51edd7ab1ed8f62f,
0x51ef1e94f30c9db6,0x51f007f387bb37e9,0x51f0d6344db9f662,0x51f1574916d3ffbc,0x51f1cff22508e8ca,0x51f25972a9081270,0x51f3e51cbf3b4eca,0x51f5685b1a896ad8,
0x51f5ad1b5c88ffab,0x51f672f067a29dd8,0x51f6b37acc2fa285,0x51f877438c0ac340,0x51f981d8d923f640,0x51fc7fe9d4db0e10,0x51fdd7ab1ed8f62f,0x5200530495e6a4f5,
0x5200d1fe7047663c,0x5200d6344db9f662,0x5201574916d3ffbc,0x52025972a9081270,0x5203a4925aae4a1d,0x5203e51cbf3b4eca,0x52056c90f7fbfafe,0x5205ad1b5c88ffab,
0x520672f067a29dd8,0x5206b37acc2fa285,0x520877438c0ac340,0x520981d8d923f640,0x520c90c14aa54ea8,0x520dd7ab1ed8f62f,0x5210530495e6a4f5,0x5210d6344db9f662,
0x5211da78cea75129,0x52132162a2daf8b0,0x5213833fb10b23bd,0x5213a4925aae4a1d,0x5213e51cbf3b4eca,0x52156c90f7fbfafe,0x521672f067a29dd8,0x5216b37acc2fa285,
0x521981d8d923f640,0x521c90c14aa54ea8,0x521dd7ab1ed8f62f,0x5220530495e6a4f5,0x5220d6344db9f662,0x5220f786f75d1cc2,0x5221eb222378e459,0x52232162a2daf8b0,
0x52236407f6214570,0x5223833fb10b23bd,0x5223a4925aae4a1d,0x5223e51cbf3b4eca,0x5226519dbdff7778,0x522672f067a29dd8,0x522981d8d923f640,0x522a4592f5844c5a,
0x522d75ce10a8cb22,0x522dd7ab1ed8f62f,0x5230530495e6a4f5,0x523097c4d7e639c8,0x5230f786f75d1cc2,0x52311f135cafc4a7,0x52316c2849182312,0x523189451548b94c,
0x5231eb222378e459,0x52322dc776bf3119,0x5232b730ea42040b,0x52332162a2daf8b0,0x52336407f6214570,0x5233833fb10b23bd,0x523981d8d923f640,0x523a8c6e263d2940,
0x523d75ce10a8cb22,0x52400e4453e71022,0x52402d931f4d4523,0x5240702162173b2f,0x524097c4d7e639c8,0x5240bd364e7f999a,0x52411f135cafc4a7,0x524189451548b94c,
0x5241eb222378e459,0x5242b730ea42040b,0x52431d384da693e4,0x5243833fb10b23bd,0x524877438c0ac340,0x524981d8d923f640,0x524a8c6e263d2940,0x52500e4453e71022,
0x5250572eeb1b09c1,0x5250702162173b2f,0x5250bd364e7f999a,0x5251eb222378e459,0x5252512986dd7432,0x5252b730ea42040b,0x52531d384da693e4,0x525877438c0ac340,
0x525981d8d923f640,0x525c45cd11154dfd,0x525cabd47479ddd6,0x5260572eeb1b09c1,0x5260b90bf94b34ce,0x5260bd364e7f999a,0x5261851ac0145480,0x5262512986dd7432,
0x5262b730ea42040b,0x52631d384da693e4,0x52677e7efdaba904,0x52691591f5f0cf35,0x526981d8d923f640,0x526a47a8201e7ec0,0x526b79be4a4c2e4b,0x526c45cd11154dfd,
0x526cabd47479ddd6,0x5270868d923f797b,0x5271851ac0145480,0x5271ea178e2bcb26,0x5272b730ea42040b,0x52731d384da693e4,0x5273e83c7f229a63,0x52757f4f7767c094,
0x5275e661701969a0,0x52777e7efdaba904,0x5277e37bcbc31faa,0x5277e486611038dd,0x527c45cd11154dfd,0x527ca9bf49dfab70,0x527fd9fa65042a38,0x5280868d923f797b,
0x5281851ac0145480,0x52821eab1fd1b8df,0x52831d384da693e4,0x5283b5be1816df10,0x5284b555db38d348,0x5284e7d442448e9b,0x52854ddba5a91e74,0x5286662d51aa63bc,
0x52877e7efdaba904,0x5287e486611038dd,0x528bdfc5adb0be24,0x528c45cd11154dfd,0x528ff4c9787dadae,0x5290868d923f797b,0x529112b668401c1f,0x52919edf3e40bec3,
0x52921eab1fd1b8df,0x52931d384da693e4,0x5294b555db38d348,0x52954ddba5a91e74,0x5296662d51aa63bc,0x52977e7efdaba904,0x5297e486611038dd,0x529c45cd11154dfd,
0x529ff4c9787dadae,0x52a0ec94f5a40954,0x52a112b668401c1f,0x52a19edf3e40bec3,0x52a31d384da693e4,0x52a527ba330d0ba9,0x52a54ddba5a91e74,0x52a6662d51aa63bc,
0x52a6ac41bcaab50e,0x52a77e7efdaba904,0x52a7e486611038dd,0x52aaa1528f136611,0x52ac45cd11154dfd,0x52b026b4a912bde6,0x52b06cc914130f38,0x52b0cca1fd3fcacd,
0x52b0efac32bff376,0x52b112b668401c1f,0x52b1851ac0145480,0x52b43589f9a7d92c,0x52b54ddba5a91e74,0x52b6662d51aa63bc,0x52b6ac41bcaab50e,0x52b942ec7811cf77,
0x52baa1528f136611,0x52bc45cd11154dfd,0x52c063835cbf50d2,0x52c0cca1fd3fcacd,0x52c0efac32bff376,0x52c135c09dc044c8,0x52c54ddba5a91e74,0x52c5da047ba9c118,
0x52c6662d51aa63bc,0x52c6ac41bcaab50e,0x52c6f25627ab0660,0x52c967824c1fed31,0x52caa1528f136611,0x52cc45cd11154dfd,0x52d063835cbf50d2,0x52d0cca1fd3fcacd,
0x52d0efac32bff376,0x52d13434ff324fb7,0x52d135c09dc044c8,0x52d2297c75b36c56,0x52d25ed1953aa3dc,0x52d31ec3ec3488f5,0x52d3a96123a73688,0x52d4140b62b5a594,
0x52d4c1b2cfa87bd0,0x52d5da047ba9c118,0x52d6662d51aa63bc,0x52d6f25627ab0660,0x52d967824c1fed31,0x52dad6a7ae9a9d97,0x52dc45cd11154dfd,0x52e0cca1fd3fcacd,
0x52e0efac32bff376,0x52e135c09dc044c8,0x52e1a73ee3fd4ba9,0x52e25ed1953aa3dc,0x52e2a4e6003af52e,0x52e51a1224afdbff,0x52e6662d51aa63bc,0x52e6f25627ab0660,
0x52e967824c1fed31,0x52ea1f14fd5d4564,0x52ead6a7ae9a9d97,0x52ec22c2db952554,0x52f0efac32bff376,0x52f1a73ee3fd4ba9,0x52f25ed1953aa3dc,0x52f51a1224afdbff,
0x52f740ca3867e498,0x52f967824c1fed31,0x52fa1f14fd5d4564,0x52fb8e3a5fd7f5ca,0x52fc22c2db952554,0x52feb6c962abee5b,0x52ff010da08a8620,0x5300efac32bff376,
0x530116e63b1e6292,0x5301a73ee3fd4ba9,0x53025ed1953aa3dc,0x530360a8845693d4,0x530387e28cb502f0,0x5306f685fa894cd3,0x530740ca3867e498,0x53082f0423549d02,
0x530967824c1fed31,0x530a1f14fd5d4564,0x530eb6c962abee5b,0x530f010da08a8620,0x53117097aa4deb72,0x53125ed1953aa3dc,0x53129578ceea0413,0x53129f4751019fda,
0x531360a8845693d4,0x5313974fbe05f40b,0x53153d1c5a3004a8,0x5316f685fa894cd3,0x53182f0423549d02,0x5319270c9058f133,0x531a1f14fd5d4564,0x531eb6c962abee5b,
0x531f010da08a8620,0x5320af3676f8f778,0x53221e5bd973a7de,0x53229f4751019fda,0x5323974fbe05f40b,0x5325be07d1bdfca4,0x53263ef3494bf4a0,0x53282f0423549d02,
0x5329270c9058f133,0x532a1f14fd5d4564,0x532beeeaf9826fc7,0x532cfd5fc252a630,0x53304e85dd4e7d7b,0x5330af3676f8f778,0x53313b581c6ce090,0x53321e5bd973a7de,
0x53329f4751019fda,0x5332bf822ee51dd9,0x53337714e022760c,0x5333974fbe05f40b,0x53363ef3494bf4a0,0x53367f690512f09e,0x5339270c9058f133,0x533a1f14fd5d4564,
0x533a8afbc4edb07d,0x533beeeaf9826fc7,0x533cfd5fc252a630,0x533dff36b16e9628,0x5340af3676f8f778,0x53413b581c6ce090,0x5341ed4fb6b74035,0x53421325ab8db6c2,
0x53429f4751019fda,0x5343974fbe05f40b,0x53448f582b0a483c,0x53463ef3494bf4a0,0x5347c31d5bc431e9,0x5349b32e35ccda4b,0x534a1f14fd5d4564,0x534a8afbc4edb07d,
0x534beeeaf9826fc7,0x534faed1cfb0428c,0x5350af3676f8f778,0x53513b581c6ce090,0x5351612e1143571d,0x5351ed4fb6b74035,0x53558a2e238818b4,0x5355ad368ce512fa,
0x53563ef3494bf4a0,0x5357c31d5bc431e9,0x5359d9042aa350d8,0x535a8afbc4edb07d,0x535ce6f36686c3f8,0x535ed9d1cc08e8a1,0x535faed1cfb0428c,0x536004419f6fe5b6,
0x53600927fa6a1c68,0x53607028670050cf,0x5360af3676f8f778,0x5360cca3c962f930,0x53613b581c6ce090,0x5361612e1143571d,0x53618168ef26d51c,0x5362105820143a7b,
0x536362c31ffa7ca2,0x53646c4fc1ad4df6,0x53658a2e238818b4,0x5365ad368ce512fa,0x53663ef3494bf4a0,0x536757369433c6d0,0x53686f79df1b9900,0x536af9b1e41ac640,
0x536ce6f36686c3f8,0x536ed9d1cc08e8a1,0x53700927fa6a1c68,0x53700bf585e398af,0x537027a29aa61287,0x537031188ae47bc3,0x53704bb851d50134,0x5370af3676f8f778,
0x5370c007bbd1e122,0x5370cca3c962f930,0x5370ec2bb770e3b6,0x53713b581c6ce090,0x5371612e1143571d,0x53718168ef26d51c,0x5371dde61dacabe0,0x537362c31ffa7ca2,
0x53740e6cb37c5040,0x53763ef3494bf4a0,0x537757369433c6d0,0x53786f79df1b9900,0x537ed9d1cc08e8a1,0x537fed874dcfb6aa,0x53800927fa6a1c68,0x538010851b27cb39,
0x538027a29aa61287,0x53802aca841befbc,0x53803db66498c234,0x53804bb851d50134,0x53806980023b63da,0x53806ae5e1e68acc,0x53809bf204a2f275,0x5380af3676f8f778,
0x53813b581c6ce090,0x5381612e1143571d,0x53821e2eaa757767,0x53840e6cb37c5040,0x53844599ae031379,0x5385594f2fc9e182,0x53863ef3494bf4a0,0x538698a4b87b7d80,
0x53886f79df1b9900,0x538f5abf0fba0f00,0x538fed874dcfb6aa,0x53902314d1850e60,0x539027a29aa61287,0x5390a42d781136d3,0x5390d5ec8aa331f5,0x53913b581c6ce090,
0x5391b8c318abc8cc,0x53921e2eaa757767,0x539331e42c3c4570,0x53944599ae031379,0x5395594f2fc9e182,0x539c5ad1c112dae0,0x539ef24145e8043a,0x53a027a29aa61287,
0x53a10a7928aea95e,0x53a13b581c6ce090,0x53a1a08ba6819e2f,0x53a331e42c3c4570,0x53a44599ae031379,0x53a5594f2fc9e182,0x53a6549537b193f2,0x53a780ba33577d94,
0x53a98fb5bd05fe0d,0x53accad6425a6828,0x53adc61c4a421a98,0x53aef24145e8043a,0x53b1a08ba6819e2f,0x53b1df5d287b8acb,0x53b28362348a3506,0x53b29bd1ae69509f,
0x53b331e42c3c4570,0x53b44599ae031379,0x53b528703c0baa50,0x53b5594f2fc9e182,0x53b6549537b193f2,0x53b780ba33577d94,0x53b7fe5d374b56cc,0x53ba25c83ad8f2de,
0x53bdc61c4a421a98,0x53bef24145e8043a,0x53c027a29aa61287,0x53c0cba7a6b4bcc2,0x53c130db30c97a61,0x53c13b581c6ce090,0x53c1df5d287b8acb,0x53c28362348a3506,
0x53c3127b6b3f4f22,0x53c331e42c3c4570,0x53c44599ae031379,0x53c528703c0baa50,0x53ca25c83ad8f2de,0x53cef24145e8043a,0x53d027a29aa61287,0x53d0ac3ee5b7c674,
0x53d0cba7a6b4bcc2,0x53d13b581c6ce090,0x53d1df5d287b8acb,0x53d1fec5e9788119,0x53d3127b6b3f4f22,0x53d331e42c3c4570,0x53d44599ae031379,0x53d5690390485ca9,
0x53dc8c04c0607b8c,0x53dc9bb920def6b3,0x53ddced763a2bb0a,0x53e0401214852e20,0x53e0ac3ee5b7c674,0x53e0cba7a6b4bcc2,0x53e11334420f49d0,0x53e1441335cd8102,
0x53e1fec5e9788119,0x53e2369e24549300,0x53e3127b6b3f4f22,0x53e331e42c3c4570,0x53e5690390485ca9,0x53e870a967710516,0x53e9025e5893a9ae,0x53ec8c04c0607b8c,
0x53ec9bb920def6b3,0x53edced763a2bb0a,0x53f01a89f49521dc,0x53f0ac3ee5b7c674,0x53f1b04007001956,0x53f1cfa8c7fd0fa4,0x53f3127b6b3f4f22,0x53f375133ae68245,
0x53f4c79a3ea73cea,0x53f4d74e9f25b811,0x53f578b7f0c6d7d0,0x53f5c19269582a1c,0x53f7bf8bb5516a30,0x53f870a967710516,0x53fc4d333e668ef0,0x53fc9bb920def6b3,
0x53fdced763a2bb0a,0x54001a89f49521dc,0x5400ac3ee5b7c674,0x5402c9a0f2adfcd6,0x5403127b6b3f4f22,0x54048e74269465c5,0x5404d74e9f25b811,0x540578b7f0c6d7d0,
0x5405c19269582a1c,0x5407191de8649799,0x540870a967710516,0x540b689ade1b325c,0x540c9bb920def6b3,0x54101a89f49521dc,0x541063646d267428,0x5410eb1067b1b310,
0x5411721573a18f59,0x5411a8b94e0e8d12,0x5411f9c16e2cce41,0x5413127b6b3f4f22,0x541578b7f0c6d7d0,0x5415c19269582a1c,0x5417191de8649799,0x541870a967710516,
0x54189516a3b9ae3c,0x541c9bb920def6b3,0x5420512dcf021f95,0x542087d1a96f1d4e,0x5421a8b94e0e8d12,0x5423491f45ac4cdb,0x542457d04c27680c,0x5425c19269582a1c,
0x54260a6ce1e97c68,0x5427191de8649799,0x542870a967710516,0x542b1fc06589e010,0x542fed7a8f6bde22,0x5430512dcf021f95,0x543063646d267428,0x5430f3d83f762c0a,
0x5431a8b94e0e8d12,0x54326fd0facb42ad,0x543457d04c27680c,0x5435c19269582a1c,0x5437191de8649799,0x5438cb19eebd359a,0x543a7d15f515d39b,0x543b1fc06589e010,
0x543fed7a8f6bde22,0x5440512dcf021f95,0x5440f3d83f762c0a,0x5441a8b94e0e8d12,0x5442a5d445ceca0b,0x5442b80ae3f31e9e,0x54456721e20bf998,0x5445c19269582a1c,
0x5446767377f08b24,0x5448cb19eebd359a,0x544a7d15f515d39b,0x544b1fc06589e010,0x544c5c4a3f1489de,0x544c898282baa220,0x544df3449feb6430,0x544fed7a8f6bde22,
0x5450d8d699f4685b,0x5451a8b94e0e8d12,0x5451d5f191b4a554,0x5452b80ae3f31e9e,0x54550cb15abfc914,0x54556721e20bf998,0x5458cb19eebd359a,0x545a4fddb16fbb59,
0x545a7d15f515d39b,0x545a93b216e8dfbc,0x545c5c4a3f1489de,0x545c898282baa220,0x545df3449feb6430,0x54600d596988fb32,0x5460f3d83f762c0a,0x5461a8b94e0e8d12,
0x5461d5f191b4a554,0x5462a5d445ceca0b,0x546539e99e65e156,0x5468cb19eebd359a,0x5469af6602d30aab,0x546a7d15f515d39b,0x546a93b216e8dfbc,0x546b1fc06589e010,
0x546c5c4a3f1489de,0x546c898282baa220,0x546fd6de6d98d201,0x54700d596988fb32,0x547011beed37b2c0,0x5470df6edf7a7bb0,0x5470f1a57d9ed043,0x547141e154ed289a,
0x5473eec5912ea7cd,0x547539e99e65e156,0x54770281c6918b78,0x5478cb19eebd359a,0x5479af6602d30aab,0x5479b5fe48591e00,0x547a93b216e8dfbc,0x547c898282baa220,
0x547fd6de6d98d201,0x54800d596988fb32,0x54802bf7798283b9,0x5480a96b9476f452,0x5480f1a57d9ed043,0x548141e154ed289a,0x5482d70d80882080,0x54837151763a3734,
0x5483d8296f5b9bac,0x5483eec5912ea7cd,0x54869ba9cd702700,0x54870281c6918b78,0x5487d031b8d45468,0x54884da5d3c8c501,0x5489af6602d30aab,0x548a93b216e8dfbc,
0x548c898282baa220,0x548d74024fbb112b,0x548e24e267403400,0x548f5d06bd1c2640,0x548fc0424bc5c5e0,0x54900d596988fb32,0x549063c8f9c1ed83,0x5490f1a57d9ed043,
0x549141e154ed289a,0x54917b810a6874d0,0x5491dc254a9f3f4e,0x5492d70d80882080,0x54930a797d18d2bc,0x5493d8296f5b9bac,0x5493eec5912ea7cd,0x549422318dbf5a09,
0x54969ba9cd702700,0x54970281c6918b78,0x5497cd17dc5f076b,0x549a93b216e8dfbc,0x549c898282baa220,0x549d74024fbb112b,0x549e24e267403400,0x549f5650762f146b,
0x549fc0424bc5c5e0,0x54a00d596988fb32,0x54a0de233841111f,0x54a0f1a57d9ed043,0x54a0f4bf5a141d40,0x54a141e154ed289a,0x54a1dc254a9f3f4e,0x54a2d70d80882080,
0x54a2fd9e7df4a62d,0x54a30a797d18d2bc,0x54a3eec5912ea7cd,0x54a422318dbf5a09,0x54a70281c6918b78,0x54a7cd17dc5f076b,0x54a9a28b03aede1c,0x54aa93b216e8dfbc,
0x54ac898282baa220,0x54ae24e267403400,0x54af5650762f146b,0x54afc0424bc5c5e0,0x54b11b505780a2ed,0x54b2fd9e7df4a62d,0x54b30a797d18d2bc,0x54b317547c3cff4b,
0x54b376320791a6fd,0x54b3eec5912ea7cd,0x54b6cf15ca00d93c,0x54b6e8cbc849325a,0x54b7cd17dc5f076b,0x54b9a28b03aede1c,0x54ba93b216e8dfbc,0x54be8bba60619878,
0x54c0039846da1ba0,0x54c07c2bd0771c70,0x54c11b505780a2ed,0x54c2850af457a55d,0x54c376320791a6fd,0x54c3eec5912ea7cd,0x54c4ecc7a38cd5fc,0x54c6cf15ca00d93c,
0x54c8b163f074dc7c,0x54c9a28b03aede1c,0x54c9ded4c87d5e84,0x54ca27f98c700b7b,0x54ca93b216e8dfbc,0x54ce24e267403400,0x54d1d02da5ec2425,0x54d2850af457a55d,
0x54d339e842c32695,0x54d376320791a6fd,0x54d39456e9f8e731,0x54d3eec5912ea7cd,0x54d7c03cdd3adadc,0x54d8b163f074dc7c,0x54d9a28b03aede1c,0x54d9ded4c87d5e84,
0x54da1b1e8d4bdeec,0x54da93b216e8dfbc,0x54e0039846da1ba0,0x54e021bd29415bd4,0x54e2850af457a55d,0x54e2df799b8d65f9,0x54e30cb0ef284647,0x54e339e842c32695,
0x54e3671f965e06e3,0x54e376320791a6fd,0x54e39456e9f8e731,0x54e8b163f074dc7c,0x54e929f77a11dd4c,0x54e966413ee05db4,0x54e9a28b03aede1c,0x54e9ded4c87d5e84,
0x54e9ede739b0fe9e,0x54ea1b1e8d4bdeec,0x54ee24e267403400,0x54f0039846da1ba0,0x54f004e3ee138631,0x54f005a76707292f,0x54f00e13820c6ea8,0x54f011beed37b2c0,
0x54f012aab80dbbba,0x54f0d8360a8af200,0x54f30cb0ef284647,0x54f339e842c32695,0x54f3671f965e06e3,0x54f966413ee05db4,0x54f9a28b03aede1c,0x54f9b5fe48591e00,
0x54f9ded4c87d5e84,0x54f9e65e01172e91,0x54f9ede739b0fe9e,0x54fe24e267403400,0x550002ddee3c228f,0x5500039846da1ba0,0x55000548f2b49b86,0x550005f842b70b86,
0x55000a9ab93ef808,0x55000b217f73ebad,0x550339e842c32695,0x55035083ec9096bc,0x5503671f965e06e3,0x5505471a29720800,0x5506a6becbba9aba,0x5508d2a3d747b800,
0x5509a28b03aede1c,0x5509c0afe6161e50,0x5509ded4c87d5e84,0x5509e65e01172e91,0x550d1e73fdd9f25b,0x550e24e267403400,0x5510186defcdd2f2,0x55103e1c0acee333,
0x5511cb1497fca4fe,0x5512f615455ad620,0x55135083ec9096bc,0x5513671f965e06e3,0x55137dbb402b770a,0x55161f18d0e9f9d0,0x5516a6becbba9aba,0x551842c9ca1bfc9f,
0x5519481c5c791d80,0x5519c0afe6161e50,0x5519ded4c87d5e84,0x5519fcf9aae49eb8,0x551d1e73fdd9f25b,0x552063ca25cff374,0x5521cb1497fca4fe,0x5522075e5ccb2566,
0x5523671f965e06e3,0x55236ea8cef7d6f0,0x5526a6becbba9aba,0x552842c9ca1bfc9f,0x55284a5302b5ccac,0x5529ded4c87d5e84,0x552a39436fb31f20,0x552ab09ee3faf77d,
0x5530186defcdd2f2,0x553027806101730c,0x553063ca25cff374,0x5530942a0b0d278f,0x553100d3b518dc12,0x55313594414d8c6d,0x5531b478ee2f34d7,0x5531cb1497fca4fe,
0x5533671f965e06e3,0x55336ea8cef7d6f0,0x553431607941cfcf,0x553842c9ca1bfc9f,0x553979b4570b7a0e,0x5539c0afe6161e50,0x5539ded4c87d5e84,0x553a39436fb31f20,
0x553ab09ee3faf77d,0x5540942a0b0d278f,0x554100d3b518dc12,0x5541cb1497fca4fe,0x554237be42085981,0x5543671f965e06e3,0x55436ea8cef7d6f0,0x5545032a94bf68c8,
0x5545a26477840f86,0x55470bdf3d2c7f30,0x554979b4570b7a0e,0x5549ded4c87d5e84,0x554a43f539ef42fa,0x554ab09ee3faf77d,0x554eba7efc3b5440,0x5550f1c143e53bf8,
0x5551cb1497fca4fe,0x55525b3c098daba2,0x555262c542277baf,0x5553348f5da514a8,0x555438e9b1db9fdc,0x5555032a94bf68c8,0x5555a26477840f86,0x555697ac5a86faa0,
0x55570bdf3d2c7f30,0x55578e0c6747c4ca,0x555947241e5287d3,0x555979b4570b7a0e,0x555ab09ee3faf77d,0x555eba7efc3b5440,0x556100d3b518dc12,0x556148e76de15f64,
0x5561cb1497fca4fe,0x556237be42085981,0x5563348f5da514a8,0x55636ea8cef7d6f0,0x5564eda714afd7b1,0x5565a26477840f86,0x55678e0c6747c4ca,0x556883e05f299f6c,
0x556979b4570b7a0e,0x556ab09ee3faf77d,0x556be78970ea74ec,0x556eba7efc3b5440,0x55704374efecf520,0x5570531375ff84c2,0x5570b71bbdb38a28,0x557148e76de15f64,
0x5573b6bc87c05a42,0x5575a26477840f86,0x55778e0c6747c4ca,0x557883e05f299f6c,0x5578feca5b1a8cbd,0x557979b4570b7a0e,0x557ce9b371a54200,0x557d921acba08763,
0x557eba7efc3b5440,0x5580048eae5b1073,0x558045a54368b340,0x5580531375ff84c2,0x5580cdfd71f07213,0x5582ddd2435024e2,0x5583d3a63b31ff84,0x558698386f65ea28,
0x55878e0c6747c4ca,0x558883e05f299f6c,0x5588feca5b1a8cbd,0x558979b4570b7a0e,0x558a6f884eed54b0,0x558eba7efc3b5440,0x5590f22a538c6f9e,0x559262e8475f3791,
0x5592ddd2435024e2,0x5593d3a63b31ff84,0x5594ac907fa234e4,0x559698386f65ea28,0x559883e05f299f6c,0x5598feca5b1a8cbd,0x559979b4570b7a0e,0x5599d7b49f8ac21d,
0x559a6f884eed54b0,0x559c4cbb64f83753,0x55a068cb7de2afac,0x55a085b5315454ee,0x55a0c6cbc661f7bb,0x55a0f22a538c6f9e,0x55a262e8475f3791,0x55a2a3fedc6cda5e,
0x55a2c0e88fde7fa0,0x55a2ddd2435024e2,0x55a3c53161792ce3,0x55a3d3a63b31ff84,0x55a698386f65ea28,0x55a757d1d62bb772,0x55a883e05f299f6c,0x55a8feca5b1a8cbd,
0x55aa6f884eed54b0,0x55aaa5c2e0096208,0x55ac4cbb64f83753,0x55add33160ae2a30,0x55af1fc272e4f498,0x55b068cb7de2afac,0x55b085b5315454ee,0x55b0a0d279e25b9a,
0x55b194da06e097a6,0x55b1e7fe4b6e4a40,0x55b22cadb6432a39,0x55b262e8475f3791,0x55b2c0e88fde7fa0,0x55b2ddd2435024e2,0x55b62bc34d2dcf78,0x55b661fdde49dcd0,
0x55b6c1ca91acc375,0x55b757d1d62bb772,0x55b883e05f299f6c,0x55ba6f884eed54b0,0x55baa5c2e0096208,0x55bc4cbb64f83753,0x55bf1fc272e4f498,0x55c01859d9aa6af3,
0x55c085b5315454ee,0x55c0a0d279e25b9a,0x55c10f1406fe14e0,0x55c1e7fe4b6e4a40,0x55c22005476df62e,0x55c22cadb6432a39,0x55c2ddd2435024e2,0x55c373d987cf18df,
0x55c424fe14dc1388,0x55c62bc34d2dcf78,0x55c6c1ca91acc375,0x55c757d1d62bb772,0x55c98742fb527d64,0x55ca6f884eed54b0,0x55cc4cbb64f83753,0x55cf1fc272e4f498,
0x55d01859d9aa6af3,0x55d085b5315454ee,0x55d0a0d279e25b9a,0x55d22cadb6432a39,0x55d2ddd2435024e2,0x55d3664ae3881589,0x55d373d987cf18df,0x55d3fc5228070986,
0x55d62bc34d2dcf78,0x55d6328a9f515123,0x55d757d1d62bb772,0x55d98742fb527d64,0x55da6f884eed54b0,0x55daa5c2e0096208,0x55dc4cbb64f83753,0x55df1fc272e4f498,
0x55e0a0d279e25b9a,0x55e0a799cc05dd45,0x55e24e9250f4b290,0x55e2ddd2435024e2,0x55e3664ae3881589,0x55e3fc5228070986,0x55e62bc34d2dcf78,0x55e6328a9f515123,
0x55e868c3169b98c0,0x55e98742fb527d64,0x55eaa5c2e0096208,0x55ec4cbb64f83753,0x55ec945b5e25f07c,0x55f0a799cc05dd45,0x55f170eb1348056a,0x55f24e9250f4b290,
0x55f325723c7dde0b,0x55f3eec383c00630,0x55f3fc5228070986,0x55f4abfe6de79797,0x55f55baab3c825a8,0x55f6328a9f515123,0x55f7b916d0bb0aaf,0x55f868c3169b98c0,
0x55f98742fb527d64,0x55faa5c2e0096208,0x55fc945b5e25f07c,0x55ffa173c0f96394,0x5600a799cc05dd45,0x5600c8061f8af904,0x56024e9250f4b290,0x560325723c7dde0b,
0x56036d1235ab9734,0x5603fc5228070986,0x5604abfe6de79797,0x5607b916d0bb0aaf,0x56084856c3167d01,0x560868c3169b98c0,0x56098742fb527d64,0x560aa5c2e0096208,
0x560bd115457113b6,0x560c945b5e25f07c,0x560fa173c0f96394,0x561325723c7dde0b,0x56136d1235ab9734,0x5614abfe6de79797,0x56156f44869c745d,0x56184856c3167d01,
0x56198742fb527d64,0x561b0dcf2cbc36f0,0x561bd115457113b6,0x561c945b5e25f07c,0x56214a44885010b9,0x56220089176e92e2,0x562325723c7dde0b,0x56244a5b618d2934,
0x5624abfe6de79797,0x56256f44869c745d,0x562800b6c9e8c3d8,0x56298742fb527d64,0x562b0dcf2cbc36f0,0x562bd115457113b6,0x562c945b5e25f07c,0x562f32cf2b089a94,
0x5630e8a17bf5a256,0x56314a44885010b9,0x56344a5b618d2934,0x56350da17a4205fa,0x56356f44869c745d,0x563b0dcf2cbc36f0,0x563bd115457113b6,0x563c945b5e25f07c,
0x563f32cf2b089a94,0x563f9472376308f7,0x5640b49b559c37e2,0x5640e8a17bf5a256,0x56414a44885010b9,0x5641a2322fb31e8b,0x5642997e6ec165c5,0x56486f5b5fd98cd8,
0x564916f85312375e,0x564b0dcf2cbc36f0,0x564bd115457113b6,0x564db2db42dcd520,0x564f32cf2b089a94,0x5650e8a17bf5a256,0x56514a44885010b9,0x5651abe794aa7f1c,
0x5652538487e329a2,0x5652997e6ec165c5,0x5654582ff44b4254,0x565616e179d51ee3,0x5657661b604673ef,0x56586f5b5fd98cd8,0x565916f85312375e,0x565b0dcf2cbc36f0,
0x565f32cf2b089a94,0x566047eed21c0460,0x56605cadae392a10,0x5660e8a17bf5a256,0x5661b9bc2768983c,0x5662538487e329a2,0x5662997e6ec165c5,0x5662fb217b1bd428,
0x5664582ff44b4254,0x5665616ff3de5b3d,0x5665b53e6d7ab080,0x5665d0e792f6e2c0,0x5666b79423aebcd9,0x5667661b604673ef,0x5667b9e9d9e2c932,0x56686f5b5fd98cd8,
0x566916f85312375e,0x566b0dcf2cbc36f0,0x566e8447ee70e37e,0x566f32cf2b089a94,0x5670255b6340c590,0x567047eed21c0460,0x56709bbd4bb859a3,0x5670e8a17bf5a256,
0x567127b11974d1e9,0x5672997e6ec165c5,0x5672fb217b1bd428,0x5672fe969fcb5a70,0x5674582ff44b4254,0x5675b53e6d7ab080,0x5676b79423aebcd9,0x5677661b604673ef,
0x56796e3bf15e12e9,0x567b0dcf2cbc36f0,0x567bcda020c18d6e,0x567e8447ee70e37e,0x567f32cf2b089a94,0x5680056a0fed4e85,0x5680410488bcf7d0,0x568047eed21c0460,
0x56805cadae392a10,0x56809bbd4bb859a3,0x5680e8a17bf5a256,0x5682492519d496ca,0x5682997e6ec165c5,0x5682a5986f27bbc1,0x5682fb217b1bd428,0x5682fe969fcb5a70,
0x5684582ff44b4254,0x5685b53e6d7ab080,0x5685d0e792f6e2c0,0x568660508562e14e,0x56896e3bf15e12e9,0x568b0dcf2cbc36f0,0x568bcda020c18d6e,0x568d28f407993876,
0x568dd5c0b1d92c68,0x5690332ff5fedeb0,0x5690410488bcf7d0,0x569047eed21c0460,0x56909bbd4bb859a3,0x5690dffca03ed2a2,0x56914514d148c74d,0x5691a342b8f3af68,
0x5692a5986f27bbc1,0x5692fb217b1bd428,0x5694582ff44b4254,0x5695999547fe7e40,0x5695b53e6d7ab080,0x569660508562e14e,0x5698c091fdf23d65,0x56996e3bf15e12e9,
0x569d28f407993876,0x569dd5c0b1d92c68,0x569dd69dfb050dfa,0x56a1a188269bec44,0x56a24e54d0dbe036,0x56a3aa8600df6cd0,0x56a4582ff44b4254,0x56a55b62f3ab303f,
0x56a609ea3042e755,0x56a86871167a8048,0x56a8c091fdf23d65,0x56a96e3bf15e12e9,0x56ad28f407993876,0x56ad7fc9014f2338,0x56add69dfb050dfa,0x56b046343fc4413c,
0x56b1a188269bec44,0x56b2fcdc0d73974c,0x56b3aa8600df6cd0,0x56b3d5f07dba6231,0x56b457c14fb5518b,0x56b4582ff44b4254,0x56b609ea3042e755,0x56b7bc1310d07d1f,
0x56b8c091fdf23d65,0x56b96e3bf15e12e9,0x56bd7fc9014f2338,0x56bdd69dfb050dfa,0x56c24f321a07c1c8,0x56c3aa8600df6cd0,0x56c3d5f07dba6231,0x56c4015afa955792,
0x56c64b413dd64fcb,0x56c6e2fea089b23a,0x56c8952781174804,0x56c8c091fdf23d65,0x56cdd69dfb050dfa,0x56ce020877e0035b,0x56d0054bd6c6c98f,0x56d0f3de333016c0,
0x56d1353540c37f36,0x56d1609fbd9e7497,0x56d24f321a07c1c8,0x56d29b481dac6b64,0x56d31259f9961998,0x56d3aa8600df6cd0,0x56d3d5f07dba6231,0x56d51098ddc858fe,
0x56d64b413dd64fcb,0x56ddd69dfb050dfa,0x56e004dd3230d8c6,0x56e0e8b09888e4d1,0x56e0f3de333016c0,0x56e1353540c37f36,0x56e2031c1663182c,0x56e26fdda0d17603,
0x56e29b481dac6b64,0x56e3aa8600df6cd0,0x56e3d5f07dba6231,0x56e51098ddc858fe,0x56e64b413dd64fcb,0x56e785e99de44698,0x56ec7a6ccb018160,0x56f025f75d907dca,
0x56f069c6d65d3e25,0x56f1353540c37f36,0x56f26fdda0d17603,0x56f29b481dac6b64,0x56f3aa8600df6cd0,0x56f51098ddc858fe,0x56f64b413dd64fcb,0x56f785e99de44698,
0x56f838f30c58bcaf,0x56faf21345416aa4,0x56fbe8ec2c82a116,0x56ff98e54cac857d,0x570069c6d65d3e25,0x57018c0a3a7969f8,0x5701a46f366b34f2,0x57029b481dac6b64,
0x5703bd8b81c89737,0x57051098ddc858fe,0x5707421a2517863d,0x570785e99de44698,0x570af21345416aa4,0x570de2d078fdf377,0x570f98e54cac857d,0x571069c6d65d3e25,
0x57111cd044d1b43c,0x5711a46f366b34f2,0x5712d2e518804642,0x5714952c6a27bdc5,0x57151098ddc858fe,0x5716c6adb176eb04,0x5717264ba7ad98ce,0x571785e99de44698,
0x571af21345416aa4,0x571b614d3ae92060,0x571de2d078fdf377,0x571e5e3cec9e8eb0,0x571f98e54cac857d,0x572069c6d65d3e25,0x5721353540c37f36,0x5721a46f366b34f2,
0x57224faaa5272710,0x57226fdda0d17603,0x5722fae613e3192e,0x5723aa8600df6cd0,0x5724358e73f10ffb,0x5724952c6a27bdc5,0x5726c6adb176eb04,0x5727264ba7ad98ce,
0x572785e99de44698,0x572af21345416aa4,0x572de2d078fdf377,0x572e5e3cec9e8eb0,0x573144d140348728,0x5731a46f366b34f2,0x57324faaa5272710,0x57335a840a19c6f8,
0x5734358e73f10ffb,0x5734952c6a27bdc5,0x573596059041a8f2,0x5737264ba7ad98ce,0x573785e99de44698,0x573831250ca038b6,0x573af21345416aa4,0x573b777ff7baba98,
0x573de2d078fdf377,0x574041c5dafa6b39,0x5740ef3388d68e19,0x5741150245193043,0x57411cd044d1b43c,0x574144d140348728,0x57424faaa5272710,0x5742fae613e3192e,
0x57435a840a19c6f8,0x5744358e73f10ffb,0x574596059041a8f2,0x5746e3954e70f0d4,0x574af21345416aa4,0x574b614d3ae92060,0x574b777ff7baba98,0x574de2d078fdf377,
0x574e5e3cec9e8eb0,0x575005b55082422e,0x575028299cb0ae8c,0x575039f7db41e740,0x57505fc69784896a,0x57506adff5ed5686,0x5750ad964f29fe80,0x5750ef3388d68e19,
0x5751150245193043,0x575144d140348728,0x575202f40d11ca5b,0x57524136d6aa2428,0x57524faaa5272710,0x5752fae613e3192e,0x57535a840a19c6f8,0x57536d6b683b180d,
0x5756e3954e70f0d4,0x575a32d758d40f10,0x575de2d078fdf377,0x575e5e3cec9e8eb0,0x576005b55082422e,0x5760061eca3dbacd,0x576006ce70125a8f,0x5760087912af3960,
0x576016ece12c3c48,0x57601906285f0be2,0x576028299cb0ae8c,0x576039f7db41e740,0x5760ad964f29fe80,0x5760cb12049e06d5,0x57612aaffad4b49f,0x576144d140348728,
0x5761ad5655b3d14c,0x57624136d6aa2428,0x57624faaa5272710,0x5762e75e21511500,0x57636d6b683b180d,0x576c488a22b94ee0,0x576ce79cfa05d000,0x576de2d078fdf377,
0x576f07cb235065e8,0x577002d600faadbf,0x577005b55082422e,0x577006678bc41e05,0x577006ce70125a8f,0x57700e8377dd7d60,0x57702088d123f08e,0x577028299cb0ae8c,
0x577039f7db41e740,0x5770ad964f29fe80,0x5770cb12049e06d5,0x57712aaffad4b49f,0x57713d9758f605b4,0x5771ad5655b3d14c,0x57724faaa5272710,0x57775aedc59f4200,
0x577a21455fd28900,0x577c488a22b94ee0,0x577f07cb235065e8,0x577f899ae22a7522,0x57800572ccf73740,0x578005b55082422e,0x578033949008733f,0x578039f7db41e740,
0x5780448c32949e80,0x5780925bea3a1396,0x5780940922442e7c,0x5780bbc79a1bf67a,0x5780e9c81b67ad02,0x57812aaffad4b49f,0x57813586d5b276cd,0x57820ec2c5ba1f73,
0x57824faaa5272710,0x5784655d6f0c66e0,0x57881d248eeecf40,0x578d3fa58d859040,0x578f899ae22a7522,0x578f8cb2ceb3a000,0x579005b55082422e,0x57900952442182e8,
0x57901efff9dd0744,0x5790814305e862de,0x5790e9c81b67ad02,0x5790ed650f06edbc,0x57912aaffad4b49f,0x57920ec2c5ba1f73,0x57924faaa5272710,0x579280cc2b2cd4dd,
0x579890c302d6e680,0x5798abbae43bc67c,0x57995eac291b8383,0x579a83a6d36df5f4,0x579c82595cad5a80,0x579d3fa58d859040,0x579f899ae22a7522,0x57a005b55082422e,
0x57a00952442182e8,0x57a013ad3019fba1,0x57a07b5ba9943852,0x57a0c69e74f9b8a8,0x57a0e9c81b67ad02,0x57a12aaffad4b49f,0x57a24faaa5272710,0x57a280cc2b2cd4dd,
0x57a5b6b7776ad17b,0x57a5efbc2a242c30,0x57a65e289bf7a0e0,0x57a8abbae43bc67c,0x57a95eac291b8383,0x57aa83a6d36df5f4,0x57ac82595cad5a80,0x57ad3fa58d859040,
0x57ae2b9b851ea7fc,0x57b067f85c8d9dc8,0x57b0e9c81b67ad02,0x57b1c5f7b9996aee,0x57b247c778737a28,0x57b333bd700c91e4,0x57b5b6b7776ad17b,0x57b5dff5d0bcd260,
0x57b5efbc2a242c30,0x57b78ab1d0432a7f,0x57b800accc0fb65d,0x57b95eac291b8383,0x57ba83a6d36df5f4,0x57bd3fa58d859040,0x57be2b9b851ea7fc,0x57c0e9c81b67ad02,
0x57c1d5be1300c4be,0x57c333bd700c91e4,0x57c3e2bd1e927877,0x57c4ceb3162b9033,0x57c78ab1d0432a7f,0x57c7c7a819565ba8,0x57c800accc0fb65d,0x57c95eac291b8383,
0x57ca83a6d36df5f4,0x57ce2b9b851ea7fc,0x57cf1598b18ad47e,0x57d073cd1f9b2124,0x57d124c5994df2f1,0x57d15dca4c074da6,0x57d3e2bd1e927877,0x57d6a0b4a3d6fdfd,
0x57d6dbb221bd43ec,0x57d715b33a0d143e,0x57d78ab1d0432a7f,0x57d7ffb0667940c0,0x57da83a6d36df5f4,0x57dd3fa58d859040,0x57de2b9b851ea7fc,0x57df1598b18ad47e,
0x57dfff95ddf70100,0x57e073cd1f9b2124,0x57e0e8cbb5d13765,0x57e3e2bd1e927877,0x57e541b8e134bb3a,0x57e6a0b4a3d6fdfd,0x57e715b33a0d143e,0x57e7ffb0667940c0,
0x57ea83a6d36df5f4,0x57eb15a5f5cbf45e,0x57ec57a12c464ef8,0x57ed3fa58d859040,0x57ee2b9b851ea7fc,0x57ef1598b18ad47e,0x57efff95ddf70100,0x57f1b6c4bbabf15b,
0x57f266c0cfc84d8b,0x57f283c15bf035b4,0x57f3ffbdaaba60a0,0x57f507b7c8e4eae8,0x57f541b8e134bb3a,0x57f599b6eb42e952,0x57f6a0b4a3d6fdfd,0x57f715b33a0d143e,
0x57f7ffb0667940c0,0x57f8afac7a959cf0,0x57f915ac97ec844e,0x57fb15a5f5cbf45e,0x57fc57a12c464ef8,0x57fe2b9b851ea7fc,0x57ffff95ddf70100,0x5801ffc44cdaf090,
0x580315c07e4e341e,0x5803ffbdaaba60a0,0x5806a0b4a3d6fdfd,0x580715b33a0d143e,0x580815afe8fccc46,0x580915ac97ec844e,0x580b15a5f5cbf45e,0x580ca0a0bd754e2d,
0x580e2b9b851ea7fc,0x580fff95ddf70100,0x581049c6e5c0f552,0x5810d4c4fe7a9719,0x5810ffc79deb3888,0x58115fc3173438e0,0x5811ffc44cdaf090,0x581315c07e4e341e,
0x581515b9dc2da42e,0x581615b68b1d5c36,0x581715b33a0d143e,0x581815afe8fccc46,0x581895ae4074a84a,0x581915ac97ec844e,0x581ca0a0bd754e2d,0x581fa096ca447645,
0x581fff95ddf70100,0x582025d271384332,0x582073cd1f9b2124,0x58207fc946735c84,0x58208fd1462c93b0,0x5820e8cbb5d13765,0x5820ffc79deb3888,0x582615b68b1d5c36,
0x582715b33a0d143e,0x582815afe8fccc46,0x582855af14b8ba48,0x582895ae4074a84a,0x582a7fb53d141f80,0x582d3fa58d859040,0x582fff95ddf70100,0x583013dec795b378,
0x583025d271384332,0x58303dde70ce15f4,0x58303fca1ab76e82,0x58305ad1dbb26b71,0x58307fc946735c84,0x5834ffd49c313e00,0x583715b33a0d143e,0x583795b19184f042,
0x583815afe8fccc46,0x583835af7edac347,0x583855af14b8ba48,0x583a7fb53d141f80,0x583fff95ddf70100,0x584013dec795b378,0x58401fca84d97781,0x584028de9c31e4b6,
0x58403fca1ab76e82,0x58422043b9ac94b5,0x5844ffd49c313e00,0x584795b19184f042,0x5847d5b0bd40de44,0x584815afe8fccc46,0x584835af7edac347,0x584855af14b8ba48,
0x584fff95ddf70100,0x585120470abcdcad,0x58518045cc56c1b0,0x5851e0448df0a6b3,0x58522043b9ac94b5,0x585240434f8a8bb6,0x58552af99c43abfe,0x5856d5b40e51263c,
0x585755b265c90240,0x5857d5b0bd40de44,0x585815afe8fccc46,0x585835af7edac347,0x585855af14b8ba48,0x5860004ac5ef2da4,0x58618045cc56c1b0,0x58622043b9ac94b5,
0x586240434f8a8bb6,0x5862ab01e6ec5fea,0x58646afc190fe1f8,0x58652af99c43abfe,0x58654af93221a2ff,0x586555b907e99230,0x586755b265c90240,0x586815afe8fccc46,
0x586855af14b8ba48,0x586cb5c087ce6ab4,0x586e2b1bae2afad8,0x586fc0766a6581fd,0x58716ae61683ce97,0x5872004423ce9db4,0x58722043b9ac94b5,0x587240434f8a8bb6,
0x58730040d2be55bc,0x58752af99c43abfe,0x58754af93221a2ff,0x587680552cc24521,0x5876a054c2a03c22,0x587855af14b8ba48,0x587955abc3a87250,0x587cb5c087ce6ab4,
0x587e2b1bae2afad8,0x587fc0766a6581fd,0x58822043b9ac94b5,0x588240434f8a8bb6,0x5882daf14cdadcc7,0x5884704c091563ec,0x58852af99c43abfe,0x58854af93221a2ff,
0x5885885065dad007,0x5886a054c2a03c22,0x588855af14b8ba48,0x58894db3dba02f62,0x588b40656171da90,0x588cb5c087ce6ab4,0x588e2b1bae2afad8,0x588fc0766a6581fd,
0x58900aeaa5fa318c,0x5890103a95ffb380,0x589068416f915595,0x5891083f5ce7289a,0x589240434f8a8bb6,0x5892bd99aeffa6c0,0x5892daf14cdadcc7,0x5893d44a0fc3b25e,
0x5894704c091563ec,0x58954af93221a2ff,0x58956af8c7ff9a00,0x5895885065dad007,0x5896a054c2a03c22,0x589755b265c90240,0x589855af14b8ba48,0x58994db3dba02f62,
0x589b01ba31b74d0b,0x589b40656171da90,0x589cb5c087ce6ab4,0x589e2b1bae2afad8,0x58a06c3d6395770c,0x58a08ae8fd720d90,0x58a1179529d573dc,0x58a29c461d204f42,
0x58a2daf14cdadcc7,0x58a3d44a0fc3b25e,0x58a5885065dad007,0x58a5e5a72f71f410,0x58a6a054c2a03c22,0x58a94db3dba02f62,0x58ab01ba31b74d0b,0x58acb5c087ce6ab4,
0x58ae2b1bae2afad8,0x58b06c3d6395770c,0x58b1179529d573dc,0x58b1c2ecf01570ac,0x58b328f24983b58e,0x58b3d44a0fc3b25e,0x58b5885065dad007,0x58b5e5a72f71f410,
0x58b633a82c1accd7,0x58b9a35fbec02dca,0x58bb01ba31b74d0b,0x58bcb5c087ce6ab4,0x58bdbe6f17a58b8d,0x58c0153d84741827,0x58c06c3d6395770c,0x58c0c840312b3a98,
0x58c0e51451ce4f07,0x58c1179529d573dc,0x58c16d410cf57244,0x58c1ca97d68c964d,0x58c26e44b6556d7c,0x58c55d7a744ad0d3,0x58c5885065dad007,0x58c5e5a72f71f410,
0x58c6605596e44e20,0x58c73c56bbf1edb0,0x58c893064871e750,0x58c9a35fbec02dca,0x58cb01ba31b74d0b,0x58ccb5c087ce6ab4,0x58cf479f7c2caa02,0x58d06c3d6395770c,
0x58d08ae8fd720d90,0x58d0d13f13a3c0b6,0x58d0e51451ce4f07,0x58d1179529d573dc,0x58d16d410cf57244,0x58d193978d492e69,0x58d1ca97d68c964d,0x58d204c3950ae0c3,
0x58d26e44b6556d7c,0x58d33848167200d0,0x58d3e9b5088bb1f8,0x58d454cbe473affa,0x58d55d7a744ad0d3,0x58d5e5a72f71f410,0x58d6bbd4e741f014,0x58d73c56bbf1edb0,
0x58d82f9a53010eef,0x58d893064871e750,0x58df479f7c2caa02,0x58e0ecbf384574a8,0x58e1179529d573dc,0x58e16d410cf57244,0x58e2e10678b4911f,0x58e3bedf16fbb2c4,
0x58e3e9b5088bb1f8,0x58e55d7a744ad0d3,0x58e690fef5b1f0e0,0x58e6bbd4e741f014,0x58e73c56bbf1edb0,0x58e82f9a53010eef,0x58ec757f9d766be6,0x58edde8f8cd18af4,
0x58ef479f7c2caa02,0x58f10cdfad71740f,0x58f1179529d573dc,0x58f12d00229d7376,0x58f16d410cf57244,0x58f2e10678b4911f,0x58f3e9b5088bb1f8,0x58f409d57db7b15f,
0x58f55d7a744ad0d3,0x58f6bbd4e741f014,0x58f6e6aad8d1ef48,0x58f73c56bbf1edb0,0x58f82f9a53010eef,0x58fc757f9d766be6,0x58fd2a079523fb6d,0x58fdde8f8cd18af4,
0x5901179529d573dc,0x59012d00229d7376,0x5903352d10de2271,0x5903e9b5088bb1f8,0x590409d57db7b15f,0x59055d7a744ad0d3,0x5905b263b1ef98b0,0x5906e6aad8d1ef48,
0x59082f9a53010eef,0x5908e4224aae9e76,0x590aacd0f412852e,0x590c757f9d766be6,0x590d2a079523fb6d,0x59100e23f4831c78,0x59102e4469af1bdf,0x5911426b1b657310,
0x59116c7e677a3bb9,0x5911d6d29de70330,0x5913e9b5088bb1f8,0x5915b263b1ef98b0,0x59182f9a53010eef,0x591aacd0f412852e,0x591c8aea963e6b80,0x591d2a079523fb6d,
0x591fa73e363571ac,0x5920b7f66fccac32,0x59216c7e677a3bb9,0x5923e9b5088bb1f8,0x5925403807969f02,0x5925b263b1ef98b0,0x5927bd6ea8a81541,0x592913f1a7b3024b,
0x592aacd0f412852e,0x592d2a079523fb6d,0x592fa73e363571ac,0x593045cac573b284,0x59316c7e677a3bb9,0x59319198481a9fc1,0x59319c4dc47e9f8e,0x59332a77947a22a4,
0x5933e9b5088bb1f8,0x59348bb00fe90f7b,0x5934ce0c5d3da554,0x5935403807969f02,0x5935b263b1ef98b0,0x59377b125b537f68,0x5937bd6ea8a81541,0x5937f6847dd49218,
0x59398df4c5f82e30,0x593a018f748d0ea9,0x593aacd0f412852e,0x593fa73e363571ac,0x593fe0540b61ee83,0x594045cac573b284,0x59405857b5c3e488,0x59416c7e677a3bb9,
0x59426362ac7c6119,0x5942fc173bb1a59a,0x5943e9b5088bb1f8,0x5944ce0c5d3da554,0x5945403807969f02,0x5945b263b1ef98b0,0x59469b5e42b5988d,0x5947bd6ea8a81541,
0x5947f6847dd49218,0x594a018f748d0ea9,0x594fa73e363571ac,0x594fe0540b61ee83,0x595045cac573b284,0x59509dbd23407407,0x5951a0f10092ac0f,0x595289eb9158abec,
0x5955403807969f02,0x5955b263b1ef98b0,0x59569b5e42b5988d,0x5957bd6ea8a81541,0x5957f6847dd49218,0x595b3dd9270bc388,0x595bcee15a0501e2,0x595fa73e363571ac,
0x595fe0540b61ee83,0x59609dbd23407407,0x59614da1ded9f70d,0x5961f8e35e5f6d92,0x596289eb9158abec,0x596339d04cf22ef2,0x5965403807969f02,0x59672c6675aed6e7,
0x5967f6847dd49218,0x596b3dd9270bc388,0x596e3ca9b6c655cb,0x596ec2e6e1837e50,0x596fe0540b61ee83,0x597064a74e13f730,0x59709dbd23407407,0x5971f8e35e5f6d92,
0x59720851a2af8fe8,0x59739c8db2fb064a,0x5974f7b3ee19ffd5,0x5975403807969f02,0x5976e3e25c3237ba,0x59776d336d0364e9,0x5977f6847dd49218,0x597a3aa549b98b80,
0x597b3dd9270bc388,0x597d6ad48c78896f,0x597e3ca9b6c655cb,0x597e852dd042f4f8,0x597fe0540b61ee83,0x59809dbd23407407,0x5981f8e35e5f6d92,0x5983133ca229d91b,
0x59839c8db2fb064a,0x598405784821ec78,0x59846e62dd48d2a6,0x5984f7b3ee19ffd5,0x5986e3e25c3237ba,0x59876d336d0364e9,0x5987f6847dd49218,0x598ad4ee91e4dd5a,
0x598b3dd9270bc388,0x598d6ad48c78896f,0x598e3ca9b6c655cb,0x598e852dd042f4f8,0x5990d2326dd3e71e,0x599106a7b8675a35,0x599167db2b662f38,0x5991f8e35e5f6d92,
0x599394d690d2f51f,0x599405784821ec78,0x59946e62dd48d2a6,0x5994f7b3ee19ffd5,0x59976d336d0364e9,0x5997f6847dd49218,0x599ad4ee91e4dd5a,0x599b3dd9270bc388,
0x599e3ca9b6c655cb,0x59a0005d43861ac2,0x59a0d2326dd3e71e,0x59a106a7b8675a35,0x59a333a31dd4201c,0x59a3d102fd8e7961,0x59a405784821ec78,0x59a46e62dd48d2a6,
0x59a5d3907fdc623c,0x59a99a2ed2702ad0,0x59aa6c03fcbdf72c,0x59aad4ee91e4dd5a,0x59ab3dd9270bc388,0x59ae08346c32e2b4,0x59ae3ca9b6c655cb,0x59b0d2326dd3e71e,
0x59b106a7b8675a35,0x59b405784821ec78,0x59b46e62dd48d2a6,0x59b5d3907fdc623c,0x59b906d65a2a6796,0x59b93b4ba4bddaad,0x59bad4ee91e4dd5a,0x59bb3dd9270bc388,
0x59be3ca9b6c655cb,0x59c0005d43861ac2,0x59c05eac5fe549ad,0x59c0d2326dd3e71e,0x59c106a7b8675a35,0x59c184c93f1daee9,0x59c19a0030ad1d6f,0x59c1b93e89b12200,
0x59c405784821ec78,0x59c46e62dd48d2a6,0x59c4ad73a0a3fd00,0x59c5d3907fdc623c,0x59c7a1a8b796d800,0x59c93b4ba4bddaad,0x59c99a2ed2702ad0,0x59cb3dd9270bc388,
0x59ce3ca9b6c655cb,0x59d0005d43861ac2,0x59d03ed9f58e23e4,0x59d05eac5fe549ad,0x59d06947d8ad00f0,0x59d0b260037cc155,0x59d184c93f1daee9,0x59d19a0030ad1d6f,
0x59d1b93e89b12200,0x59d1d8c6eb5eb72d,0x59d27670d3c2a10e,0x59d405784821ec78,0x59d4ad73a0a3fd00,0x59d5d3907fdc623c,0x59d74dab0b55cfbc,0x59d7a1a8b796d800,
0x59d99a2ed2702ad0,0x59dcc28f2b4ce84b,0x59dce1837ba75c40,0x59de3ca9b6c655cb,0x59e03f23fe37b480,0x59e05eac5fe549ad,0x59e11bb9a5a2006d,0x59e184c93f1daee9,
0x59e1b93e89b12200,0x59e1d8c6eb5eb72d,0x59e3e5efe674574b,0x59e405784821ec78,0x59e5d3907fdc623c,0x59e74dab0b55cfbc,0x59e7a1a8b796d800,0x59e7e0b97af2025a,
0x59ecc28f2b4ce84b,0x59efd64ca3ed5878,0x59f05eac5fe549ad,0x59f11bb9a5a2006d,0x59f295d4311b6ded,0x59f2df5b68e9873c,0x59f3e5efe674574b,0x59f5d3907fdc623c,
0x59f6ef246877745c,0x59f74dab0b55cfbc,0x59f797324323e90b,0x59f7e0b97af2025a,0x59f8c7c596cf3d3c,0x59fcc28f2b4ce84b,0x59ffd64ca3ed5878,0x5a005eac5fe549ad,
0x5a011bb9a5a2006d,0x5a017a4048805bcd,0x5a02df5b68e9873c,0x5a05d3907fdc623c,0x5a06909dc59918fc,0x5a06ef246877745c,0x5a074dab0b55cfbc,0x5a0797324323e90b,
0x5a0c934bd9ddba9b,0x5a105eac5fe549ad,0x5a10ec765432d2bd,0x5a111bb9a5a2006d,0x5a117a4048805bcd,0x5a1516833a1fab7c,0x5a15d3907fdc623c,0x5a16909dc59918fc,
0x5a16d782bfbfdd84,0x5a16ef246877745c,0x5a174dab0b55cfbc,0x5a1a5c2408a7965b,0x5a1c934bd9ddba9b,0x5a205eac5fe549ad,0x5a20a5915a0c0e35,0x5a20ec765432d2bd,
0x5a211bb9a5a2006d,0x5a21278a79fdcbd9,0x5a21335b4e599745,0x5a25d3907fdc623c,0x5a26321722babd9c,0x5a26909dc59918fc,0x5a26d782bfbfdd84,0x5a26ef246877745c,
0x5a2c934bd9ddba9b,0x5a30c903d71f7079,0x5a310fe8d1463501,0x5a31278a79fdcbd9,0x5a31335b4e599745,0x5a36615a7429eb4c,0x5a36bfe1170846ac,0x5a36d782bfbfdd84,
0x5a36dd6b29edc33a,0x5a36ef246877745c,0x5a3c934bd9ddba9b,0x5a40fe2f92bc83df,0x5a410fe8d1463501,0x5a4121a20fcfe623,0x5a41278a79fdcbd9,0x5a412a7eaf14beb4,
0x5a41335b4e599745,0x5a46a83f6e50afd4,0x5a46bfe1170846ac,0x5a46d782bfbfdd84,0x5a46dd6b29edc33a,0x5a46e353941ba8f0,0x5a46ef246877745c,0x5a4c96400ef4ad76,
0x5a50011ba355c889,0x5a50040fd86cbb64,0x5a510fe8d1463501,0x5a5118c5708b0d92,0x5a5121a20fcfe623,0x5a512a7eaf14beb4,0x5a56bfe1170846ac,0x5a56cbb1eb641218,
0x5a56d782bfbfdd84,0x5a56dd6b29edc33a,0x5a56e353941ba8f0,0x5a57a1a8b796d800,0x5a59b9d59c713858,0x5a5c96400ef4ad76,0x5a60f552f377ab4e,0x5a6118c5708b0d92,
0x5a6121a20fcfe623,0x5a61249644e6d8fe,0x5a612a7eaf14beb4,0x5a63c8e0c6b647db,0x5a63f23badf78fd5,0x5a6406e9219833d2,0x5a669c6e99f4e468,0x5a66cbb1eb641218,
0x5a66d782bfbfdd84,0x5a66dd6b29edc33a,0x5a66e353941ba8f0,0x5a684ba0632f7dc9,0x5a69b6e1675a457d,0x5a69b9d59c713858,0x5a70c02737da97e8,0x5a71070c32015c70,
0x5a71249644e6d8fe,0x5a712a7eaf14beb4,0x5a71dd2afc132fb3,0x5a72257fd1d779e6,0x5a72724d362c2424,0x5a7298b3e8567943,0x5a740100b76a4e1c,0x5a7655899fce1fe0,
0x5a76b41042ac7b40,0x5a76dd6b29edc33a,0x5a76e353941ba8f0,0x5a784ba0632f7dc9,0x5a79b6e1675a457d,0x5a7d4be0910a1150,0x5a7e0181131f752a,0x5a811eaddab8f348,
0x5a81dd2afc132fb3,0x5a834283961011b1,0x5a834b603554ea42,0x5a840100b76a4e1c,0x5a86dd6b29edc33a,0x5a890140e544e1a3,0x5a89b9d59c713858,0x5a8a14a5dd7bea45,
0x5a8d4be0910a1150,0x5a9011314cafd05c,0x5a90142581c6c337,0x5a906ef5c2d17524,0x5a91da36c6fc3cd8,0x5a92c1adb93965f1,0x5a934b603554ea42,0x5a940100b76a4e1c,
0x5a96dd6b29edc33a,0x5a98a670a43a2fb6,0x5a990140e544e1a3,0x5a99b9d59c713858,0x5a9a14a5dd7bea45,0x5a9c9057a4c6c7c0,0x5a9d4be0910a1150,0x5aa0142581c6c337,
0x5aa06ef5c2d17524,0x5aa12a7eaf14beb4,0x5aa24f6c5aa64ad2,0x5aa298b3e8567943,0x5aa2c1adb93965f1,0x5aa34b603554ea42,0x5aa48ab33385d26d,0x5aa5f8e86cc78cfc,
0x5aa6e353941ba8f0,0x5aa9b9d59c713858,0x5aaa14a5dd7bea45,0x5aad4be0910a1150,0x5aadbe21ef9d2c6f,0x5ab00dab760b548f,0x5ab011314cafd05c,0x5ab0142581c6c337,
0x5ab0510a998d9d4a,0x5ab07aae5195a9bd,0x5ab08372ab42eb7b,0x5ab09dd7fde24788,0x5ab0d7c8e0922ec0,0x5ab0e42b567b831e,0x5ab1d466a265edf5,0x5ab24f6c5aa64ad2,
0x5ab34b603554ea42,0x5ab362d152dd5374,0x5ab5f8e86cc78cfc,0x5ab627caa7d85f60,0x5ab9b9d59c713858,0x5abc9057a4c6c7c0,0x5abd4be0910a1150,0x5abdbe21ef9d2c6f,
0x5abe07697d4d5ae0,0x5abf92dff8adcd84,0x5ac00560785404f0,0x5ac011314cafd05c,0x5ac0516bafebf896,0x5ac06be94822eb76,0x5ac07aae5195a9bd,0x5ac08372ab42eb7b,
0x5ac09dd7fde24788,0x5ac0ac3bf0f6aa83,0x5ac0e42b567b831e,0x5ac19e2e056787d7,0x5ac1d466a265edf5,0x5ac20054a85fcd7e,0x5ac24f6c5aa64ad2,0x5ac372ec0e7828ec,
0x5ac627caa7d85f60,0x5ac6b41042ac7b40,0x5ac9a233f3b9a180,0x5acbe963e68c8b5a,0x5acc9057a4c6c7c0,0x5acd4be0910a1150,0x5ace07697d4d5ae0,0x5acf92dff8adcd84,
0x5ad07aae5195a9bd,0x5ad09dd7fde24788,0x5ad1147b894c0386,0x5ad14f1653210a83,0x5ad19e2e056787d7,0x5ad237fb3d1de1a0,0x5ad24f6c5aa64ad2,0x5ad372ec0e7828ec,
0x5ad627caa7d85f60,0x5ad7ae27fa825a23,0x5adb57a40ca39c4d,0x5adbe963e68c8b5a,0x5add2c6215b43d62,0x5add4be0910a1150,0x5adf92dff8adcd84,0x5ae07aae5195a9bd,
0x5ae09dd7fde24788,0x5ae0ecefb028c4dc,0x5ae14f1653210a83,0x5ae22feddf5076e4,0x5ae24f6c5aa64ad2,0x5ae372ec0e7828ec,0x5ae5282b9c32f613,0x5ae537ead9dde00a,
0x5ae627caa7d85f60,0x5ae7ae27fa825a23,0x5ae83fe7d46b4930,0x5ae84fa712163327,0x5aeb57a40ca39c4d,0x5aed2c6215b43d62,0x5aed4be0910a1150,0x5aef92dff8adcd84,
0x5af066e865040a68,0x5af07aae5195a9bd,0x5af082bbaf631479,0x5af0cd7134d2f0ee,0x5af108677c97e36c,0x5af1147b894c0386,0x5af200b0264fb8ff,0x5af22feddf5076e4,
0x5af237fb3d1de1a0,0x5af24f6c5aa64ad2,0x5af333ef17cc8110,0x5af372ec0e7828ec,0x5af42fe2f27b2080,0x5af537ead9dde00a,0x5af83fe7d46b4930,0x5af84fa712163327,
0x5afb57a40ca39c4d,0x5afd4be0910a1150,0x5afeb06092faf1f5,0x5b007aae5195a9bd,0x5b00abef6209c251,0x5b00bbae9fb4ac48,0x5b00cd7134d2f0ee,0x5b00cf748c464b9d,
0x5b01b1f3f1f9272c,0x5b0200b0264fb8ff,0x5b022feddf5076e4,0x5b024f6c5aa64ad2,0x5b0333ef17cc8110,0x5b0372ec0e7828ec,0x5b04146b260c01f0,0x5b06a348ceea8853,
0x5b083fe7d46b4930,0x5b084fa712163327,0x5b0ac5e432baad40,0x5b0b8003d288928e,0x5b0c4fecb65b71e0,0x5b0d4be0910a1150,0x5b0eb06092faf1f5,0x5b10abef6209c251,
0x5b10bbae9fb4ac48,0x5b11c68dcb4c7e18,0x5b122feddf5076e4,0x5b12680ce2e0571c,0x5b129cbcece25382,0x5b13222c82ae3c6a,0x5b1372ec0e7828ec,0x5b16528943209bd1,
0x5b16a348ceea8853,0x5b183fe7d46b4930,0x5b184fa712163327,0x5b1982e60392fb38,0x5b1aa9d4b0f2bd24,0x5b1ac5e432baad40,0x5b1b8003d288928e,0x5b201a2f8820d344,
0x5b20773f5807c5eb,0x5b21c68dcb4c7e18,0x5b229cbcece25382,0x5b22d16cf6e44fe8,0x5b23222c82ae3c6a,0x5b2372ec0e7828ec,0x5b2420bb6a290815,0x5b26528943209bd1,
0x5b270e605fb57308,0x5b284fa712163327,0x5b2982e60392fb38,0x5b2aa9d4b0f2bd24,0x5b2b8003d288928e,0x5b31c68dcb4c7e18,0x5b3209459632728c,0x5b329cbcece25382,
0x5b3372ec0e7828ec,0x5b34d58ea64be345,0x5b35a4b9e76fbca8,0x5b3638313e1f9d9e,0x5b370e605fb57308,0x5b384fa712163327,0x5b3b8003d288928e,0x5b3beb1b63537d43,
0x5b3cdba289ea50e0,0x5b409f9f1decbc2c,0x5b41c68dcb4c7e18,0x5b420241b5c07685,0x5b429cbcece25382,0x5b4372ec0e7828ec,0x5b43ff5f84b60ddb,0x5b44d58ea64be345,
0x5b4540a63716cdfa,0x5b462a297d3ba590,0x5b470e605fb57308,0x5b484fa712163327,0x5b4a9926be394007,0x5b4beb1b63537d43,0x5b4c5632f41e67f8,0x5b514ac847c81646,
0x5b51b5dfd89300fb,0x5b51c68dcb4c7e18,0x5b51f3c29a5534e4,0x5b529cbcece25382,0x5b53ff5f84b60ddb,0x5b54d58ea64be345,0x5b5540a63716cdfa,0x5b570e605fb57308,
0x5b57b75ab24291a6,0x5b5a9926be394007,0x5b5beb1b63537d43,0x5b5c5632f41e67f8,0x5b5e23ed1cbd0d06,0x5b612e416b78dc97,0x5b614ac847c81646,0x5b61c68dcb4c7e18,
0x5b61f3c29a5534e4,0x5b62be18d2554dbc,0x5b63ff5f84b60ddb,0x5b642c9453bec4a7,0x5b64d58ea64be345,0x5b670e605fb57308,0x5b67b75ab24291a6,0x5b68fd766dc71250,
0x5b6a9926be394007,0x5b6d7af2ca2fee68,0x5b714ac847c81646,0x5b71c68dcb4c7e18,0x5b71f3c29a5534e4,0x5b72483fc39bc433,0x5b733a6a0bad446d,0x5b73ff5f84b60ddb,
0x5b742c9453bec4a7,0x5b770e605fb57308,0x5b77b75ab24291a6,0x5b78605504cfb044,0x5b7a9926be394007,0x5b7aeda3e77fcf56,0x5b7d7af2ca2fee68,0x5b814ac847c81646,
0x5b81f3c29a5534e4,0x5b833a6a0bad446d,0x5b842c9453bec4a7,0x5b861c3617a3f2ce,0x5b8670b340ea821d,0x5b86e9c864f3423a,0x5b870e605fb57308,0x5b87b75ab24291a6,
0x5b8a9926be394007,0x5b8d7af2ca2fee68,0x5b90a1cdf53af7a8,0x5b914ac847c81646,0x5b926cd7be5df501,0x5b92b607b3e2569d,0x5b933a6a0bad446d,0x5b942c9453bec4a7,
0x5b961c3617a3f2ce,0x5b96e9c864f3423a,0x5b970e605fb57308,0x5b9750918b9ae9f0,0x5b97b75ab24291a6,0x5b9d7af2ca2fee68,0x5b9eaf4e3e26e58a,0x5b9f161764ce8d40,
0x5ba0589dffb6960c,0x5ba06ae9fd17ae73,0x5ba14ac847c81646,0x5ba26cd7be5df501,0x5ba3b37f2fb6048a,0x5ba42c9453bec4a7,0x5ba46ec57fa43b8f,0x5ba61c3617a3f2ce,
0x5ba6e9c864f3423a,0x5ba70e605fb57308,0x5ba750918b9ae9f0,0x5baa44a994f2b0b8,0x5baacc8b518d13e2,0x5bad7af2ca2fee68,0x5baeaf4e3e26e58a,0x5baf161764ce8d40,
0x5bb26cd7be5df501,0x5bb36dce9f011848,0x5bb61c3617a3f2ce,0x5bb6b663d19f6e5f,0x5bb6e9c864f3423a,0x5bb750918b9ae9f0,0x5bb8db29db402b0e,0x5bbacc8b518d13e2,
0x5bbd7af2ca2fee68,0x5bbe4885177f3dd4,0x5bbeaf4e3e26e58a,0x5bbf161764ce8d40,0x5bc16be0ddbad1ba,0x5bc17c6d28b42f74,0x5bc3070578597092,0x5bc329ddc0b3e6b3,
0x5bc36dce9f011848,0x5bc4f866eea65966,0x5bc6b663d19f6e5f,0x5bc6e9c864f3423a,0x5bc8db29db402b0e,0x5bc9d3da96669f78,0x5bcacc8b518d13e2,0x5bcbdfce2f914f90,
0x5bcc8a88348628db,0x5bce4885177f3dd4,0x5bcf161764ce8d40,0x5bcf749a65f98619,0x5bd02f3f44472bbb,0x5bd03e843362c54c,0x5bd083bc6d8dbb0a,0x5bd09d07348dbe25,
0x5bd0f48b6c19cc4a,0x5bd17c6d28b42f74,0x5bd4f866eea65966,0x5bd6e9c864f3423a,0x5bd7a0c04abe3640,0x5bd8a984fa5411e0,0x5bd8db29db402b0e,0x5bd9578238d36543,
0x5bd9d3da96669f78,0x5bdf161764ce8d40,0x5bdf749a65f98619,0x5be007640ffa80d5,0x5be03e48081dca0a,0x5be083bc6d8dbb0a,0x5be0873bd25d3064,0x5be23cf28fd99680,
0x5be2e28b9339bd65,0x5be6e9c864f3423a,0x5be7e2792019b6a4,0x5be8db29db402b0e,0x5be9578238d36543,0x5be9d3da96669f78,0x5bef161764ce8d40,0x5bf074d1bf599a5c,
0x5bf1e9dad81348fb,0x5bf2e28b9339bd65,0x5bf35ee3f0ccf79a,0x5bf3ffb6337fe4fc,0x5bf5f117a9cccdd0,0x5bf61d06e6069154,0x5bf7e2792019b6a4,0x5bf8db29db402b0e,
0x5bf8ffa3c05fde3b,0x5bf9578238d36543,0x5bf9d3da96669f78,0x5c0024689e0023ab,0x5c0074d1bf599a5c,0x5c02e28b9339bd65,0x5c0332f4b4933416,0x5c035ee3f0ccf79a,
0x5c05f117a9cccdd0,0x5c061d06e6069154,0x5c08db29db402b0e,0x5c09d3da96669f78,0x5c0df10f063d060f,0x5c0f502080d9d2ec,0x5c1024689e0023ab,0x5c10b6b899b03fa2,
0x5c12663335a68330,0x5c12922271e046b4,0x5c12e28b9339bd65,0x5c135ee3f0ccf79a,0x5c161d06e6069154,0x5c16ffc0031023fc,0x5c177c1860a35e31,0x5c1869cd4cbb61ba,
0x5c19d3da96669f78,0x5c1db69d83007120,0x5c1df10f063d060f,0x5c1f502080d9d2ec,0x5c20196ccef1b2ca,0x5c2024689e0023ab,0x5c2074d1bf599a5c,0x5c2095c52c84ecff,
0x5c21bc285fdf5532,0x5c21d3e339f66739,0x5c22663335a68330,0x5c235ee3f0ccf79a,0x5c2408eec6942598,0x5c25f117a9cccdd0,0x5c261d06e6069154,0x5c27436a1960f987,
0x5c2869cd4cbb61ba,0x5c29d3da96669f78,0x5c2ab693b3703220,0x5c2df10f063d060f,0x5c3024689e0023ab,0x5c3095c52c84ecff,0x5c31837a189cf088,0x5c31bc285fdf5532,
0x5c335ee3f0ccf79a,0x5c3408eec6942598,0x5c35e4589ec42caa,0x5c361d06e6069154,0x5c37436a1960f987,0x5c3869cd4cbb61ba,0x5c39d3da96669f78,0x5c3a9a3c8fceffcb,
0x5c3ab693b3703220,0x5c40196ccef1b2ca,0x5c4095c52c84ecff,0x5c40a0c0fb935de0,0x5c40b21c50261f54,0x5c413fd0024c1afd,0x5c41837a189cf088,0x5c41aacd0b4c93be,
0x5c41bc285fdf5532,0x5c42663335a68330,0x5c43b3e95bb08e99,0x5c4408eec6942598,0x5c461d06e6069154,0x5c47436a1960f987,0x5c48eed35497fca9,0x5c4a9a3c8fceffcb,
0x5c4ab693b3703220,0x5c5095c52c84ecff,0x5c50b21c50261f54,0x5c50e673c243d3a1,0x5c51bc285fdf5532,0x5c525d858b5d2276,0x5c534b3a777525ff,0x5c559800de29f665,
0x5c561d06e6069154,0x5c572712f5bfc732,0x5c58eed35497fca9,0x5c59c487f2337e3a,0x5c5a9a3c8fceffcb,0x5c5ab693b3703220,0x5c5ccaabd2e29ddc,0x5c5edec3f2550998,
0x5c6010bf24a85210,0x5c60b21c50261f54,0x5c60e673c243d3a1,0x5c6187d0edc1a0e5,0x5c61bc285fdf5532,0x5c6316e3055771b2,0x5c6367919b165854,0x5c659800de29f665,
0x5c68191eb6fc7b18,0x5c68417601dbee69,0x5c6973d95c749798,0x5c69c487f2337e3a,0x5c6a9a3c8fceffcb,0x5c6ab693b3703220,0x5c6ccaabd2e29ddc,0x5c6dc8b7bb5d92be,
0x5c7010bf24a85210,0x5c706d6de1a579ae,0x5c71bc285fdf5532,0x5c72c6346f988b10,0x5c7316e3055771b2,0x5c7367919b165854,0x5c7414eeedd26694,0x5c76455e30e604a5,
0x5c78417601dbee69,0x5c7973d95c749798,0x5c79c487f2337e3a,0x5c7a9a3c8fceffcb,0x5c7bc69fd6c8887c,0x5c7dc8b7bb5d92be,0x5c8010bf24a85210,0x5c806d6de1a579ae,
0x5c8199d1289f025f,0x5c81bc285fdf5532,0x5c8212d7093d5c52,0x5c82c6346f988b10,0x5c85c058290969b6,0x5c89c487f2337e3a,0x5c8a9a3c8fceffcb,0x5c8ac593e47e035b,
0x5c8bc69fd6c8887c,0x5c9010bf24a85210,0x5c90b21c50261f54,0x5c9111cb16f2d731,0x5c9187d0edc1a0e5,0x5c93d3ebeecbe13c,0x5c95c058290969b6,0x5c97c2700d9e73f8,
0x5c99c487f2337e3a,0x5c9ab693b3703220,0x5c9ac593e47e035b,0x5c9bc69fd6c8887c,0x5ca0db9ded1812bd,0x5ca1d1d40a36d6fa,0x5ca3a8949a1cddac,0x5ca3be4044745f74,
0x5ca3d3ebeecbe13c,0x5ca4d4f7e116665d,0x5ca79718b8ef7068,0x5ca7c2700d9e73f8,0x5ca8add055917751,0x5ca9c487f2337e3a,0x5caac593e47e035b,0x5cabc69fd6c8887c,
0x5cadbde1e631d1da,0x5caf7420f69495e0,0x5cb0db9ded1812bd,0x5cb1b1528ab3944e,0x5cb1d1d40a36d6fa,0x5cb3a8949a1cddac,0x5cb3d3ebeecbe13c,0x5cb3dec1c3f7a220,
0x5cb4ca220beaa579,0x5cb4d4f7e116665d,0x5cb5d098e8cb0b0c,0x5cb7c2700d9e73f8,0x5cb7d81bb7f5f5c0,0x5cbac593e47e035b,0x5cbbc69fd6c8887c,0x5cbdbde1e631d1da,
0x5cbf7420f69495e0,0x5cbfba8ee030fbaa,0x5cbfcacf9ff29d00,0x5cc010bf24a85210,0x5cc111cb16f2d731,0x5cc1d1d40a36d6fa,0x5cc1e214c9f87850,0x5cc3d3ebeecbe13c,
0x5cc3dec1c3f7a220,0x5cc4ca220beaa579,0x5cc4d2426bcb7624,0x5cc5d098e8cb0b0c,0x5cc7c2700d9e73f8,0x5cc8c8e6ea7ed98b,0x5ccac593e47e035b,0x5ccfba8ee030fbaa,
0x5ccfcacf9ff29d00,0x5cd1d1d40a36d6fa,0x5cd1d9f46a17a7a5,0x5cd3d3ebeecbe13c,0x5cd4ca220beaa579,0x5cd4d2426bcb7624,0x5cd5d098e8cb0b0c,0x5cd7c2700d9e73f8,
0x5cd7cd45e2ca34dc,0x5cd8c8e6ea7ed98b,0x5cda4668a5fe38e7,0x5cdf3b63a1b13136,0x5cdfba8ee030fbaa,0x5ce05c72ae984849,0x5ce1d73ef4ccb76c,0x5ce3d1367980f103,
0x5ce3d3ebeecbe13c,0x5ce4d2426bcb7624,0x5ce511d80b0b5b5e,0x5ce5d098e8cb0b0c,0x5ce64d0eb1ffe547,0x5ce7c7daf834546a,0x5ce8c8e6ea7ed98b,0x5cea4668a5fe38e7,
0x5cef3b63a1b13136,0x5cef7af940f11670,0x5cefb523f59b1b38,0x5cefba8ee030fbaa,0x5cf024fd6f3933ba,0x5cf064930e7918f4,0x5cf2d59571cc4c54,0x5cf3d3ebeecbe13c,
0x5cf4d2426bcb7624,0x5cf4f20d3b6b68c1,0x5cf511d80b0b5b5e,0x5cf78aface3f5f69,0x5cf8c8e6ea7ed98b,0x5cfa06d306be53ad,0x5cfa4668a5fe38e7,0x5cff7af940f11670,
0x5cffcacf9ff29d00,0x5d03d3ebeecbe13c,0x5d04d2426bcb7624,0x5d04f20d3b6b68c1,0x5d0511d80b0b5b5e,0x5d05516daa4b4098,0x5d079c3af0b4d0d4,0x5d08c8e6ea7ed98b,
0x5d0a06d306be53ad,0x5d0aa5c914de10be,0x5d0cd0cb8ba7ae5d,0x5d0f7af940f11670,0x5d0f9ac41091090d,0x5d100b9cece2f1a4,0x5d10bbd31d782020,0x5d10ea289a4293ef,
0x5d11c8b447a2363a,0x5d1220cf5feccd78,0x5d12566a334c81e0,0x5d12a73ff501d885,0x5d1354c0b04c16c8,0x5d13acdbc896ae06,0x5d1453172d4babb0,0x5d14d2426bcb7624,
0x5d15516daa4b4098,0x5d164fc4274ad580,0x5d179c3af0b4d0d4,0x5d1a06d306be53ad,0x5d1cd0cb8ba7ae5d,0x5d1f7af940f11670,0x5d200b9cece2f1a4,0x5d2059bd394d5810,
0x5d208382d4cd7b7f,0x5d20bbd31d782020,0x5d2131039017b9c2,0x5d215f590ce22d91,0x5d21b52c34879c9f,0x5d21c8b447a2363a,0x5d2220cf5feccd78,0x5d22566a334c81e0,
0x5d22a73ff501d885,0x5d23acdbc896ae06,0x5d2453172d4babb0,0x5d25516daa4b4098,0x5d264fc4274ad580,0x5d279c3af0b4d0d4,0x5d2cd0cb8ba7ae5d,0x5d2ec87b1fb6bfc4,
0x5d2f7af940f11670,0x5d300954fc3dc974,0x5d300b9cece2f1a4,0x5d3028b24737f408,0x5d303bccd5acc59a,0x5d308382d4cd7b7f,0x5d308eea8807446f,0x5d309b9ac932657a,
0x5d309e503e7d55b3,0x5d30bbd31d782020,0x5d31b52c34879c9f,0x5d31c8b447a2363a,0x5d32566a334c81e0,0x5d33acdbc896ae06,0x5d3453172d4babb0,0x5d34c76c969fb540,
0x5d364fc4274ad580,0x5d3cba207e9c5c80,0x5d3d2a0a9c44d9b3,0x5d3ec87b1fb6bfc4,0x5d3f21ba3053eb1a,0x5d3f7af940f11670,0x5d4030652272fcaa,0x5d408382d4cd7b7f,
0x5d40970ae7e8151a,0x5d4182fd4a1fa47f,0x5d41888cac3906f4,0x5d41b52c34879c9f,0x5d41c8b447a2363a,0x5d41ced5a5e4e2bb,0x5d43acdbc896ae06,0x5d4453172d4babb0,
0x5d4742fbe017a57e,0x5d49e708371e6110,0x5d4d2a0a9c44d9b3,0x5d4d7e4c46f1eca0,0x5d4f21ba3053eb1a,0x5d4f7af940f11670,0x5d50239069c4599c,0x5d5155cbc5a7c4c8,
0x5d51888cac3906f4,0x5d51b52c34879c9f,0x5d51eea07584d558,0x5d52c79cc0cb152e,0x5d53acdbc896ae06,0x5d571d0fb2350660,0x5d5742fbe017a57e,0x5d5855236e467907,
0x5d5a4cd302558a6e,0x5d5b325b0835c84c,0x5d5cb100bc07bbc0,0x5d5f21ba3053eb1a,0x5d5f7af940f11670,0x5d60e92920fa525a,0x5d612f4d9b9bdb9e,0x5d61888cac3906f4,
0x5d61b52c34879c9f,0x5d63539cb7f982b0,0x5d63acdbc896ae06,0x5d640c85358b2ae3,0x5d6465c446285639,0x5d65eaafd74748b1,0x5d66e9bccf7a7a28,0x5d682883e5f7e35c,
0x5d6855236e467907,0x5d6a4cd302558a6e,0x5d6b325b0835c84c,0x5d6cb7469954bac4,0x5d6f7af940f11670,0x5d70105154be6507,0x5d70239069c4599c,0x5d7096546cb4788b,
0x5d70b61f3c546b28,0x5d70e92920fa525a,0x5d712278e2ed3890,0x5d71888cac3906f4,0x5d71b52c34879c9f,0x5d723b0acd735da0,0x5d73539cb7f982b0,0x5d73acdbc896ae06,
0x5d75eaafd74748b1,0x5d771fe9a2c6e0dc,0x5d784eb911ef2780,0x5d7b820ccdd52299,0x5d7cb100bc07bbc0,0x5d7cb7469954bac4,0x5d7f7af940f11670,0x5d81888cac3906f4,
0x5d81b52c34879c9f,0x5d82bdc677b89f1f,0x5d83acdbc896ae06,0x5d858974f2ff8c13,0x5d85eaafd74748b1,0x5d871fe9a2c6e0dc,0x5d8b820ccdd52299,0x5d8cb7469954bac4,
0x5d8f7af940f11670,0x5d90c616e3a98db8,0x5d90e92920fa525a,0x5d9157ef3a1528a5,0x5d9177038d90a4a3,0x5d91888cac3906f4,0x5d921e62ec79ea85,0x5d930d783d57f96c,
0x5d93539cb7f982b0,0x5d9391c55ef07aac,0x5d958974f2ff8c13,0x5d95eaafd74748b1,0x5d965d73da3767a0,0x5d971fe9a2c6e0dc,0x5d99674afc754c90,0x5d9b820ccdd52299,
0x5d9cb7469954bac4,0x5da049c595bb9dc0,0x5da0c616e3a98db8,0x5da14e61ef17579c,0x5da157ef3a1528a5,0x5da177038d90a4a3,0x5da1888cac3906f4,0x5da1e9c79080c392,
0x5da22bee214d0432,0x5da30d783d57f96c,0x5da4e6137deb8ed5,0x5da5eaafd74748b1,0x5da65d73da3767a0,0x5da66cfe03f5259f,0x5da71fe9a2c6e0dc,0x5da7e25f6b565a18,
0x5da9674afc754c90,0x5dab820ccdd52299,0x5dac34f86ca6ddd6,0x5db0a5039b436d68,0x5db157ef3a1528a5,0x5db1888cac3906f4,0x5db26c15bd2ea080,0x5db3e2769f052722,
0x5db4543b277ff3e8,0x5db5eaafd74748b1,0x5db61b4d496b2700,0x5db66cfe03f5259f,0x5db71fe9a2c6e0dc,0x5db8f78568e5241c,0x5db96949f15ff0e2,0x5dbc34f86ca6ddd6,
0x5dbd79bc61e43400,0x5dc001a2262f702a,0x5dc0333f12c8a0a2,0x5dc0a5039b436d68,0x5dc126524d7bf82d,0x5dc157ef3a1528a5,0x5dc1c9b3c28ff56b,0x5dc24b0274c88030,
0x5dc370b2168a5a5c,0x5dc3e2769f052722,0x5dc4543b277ff3e8,0x5dc71fe9a2c6e0dc,0x5dc80bb785d6027c,0x5dc8f78568e5241c,0x5dc9eb981e0dcdd0,0x5dcc34f86ca6ddd6,
0x5dcdd3b1ee87bab3,0x5dd0333f12c8a0a2,0x5dd09479f7105d40,0x5dd0a5039b436d68,0x5dd157ef3a1528a5,0x5dd18047da1f7ee0,0x5dd1c9b3c28ff56b,0x5dd1d1f894a97d7f,
0x5dd3e2769f052722,0x5dd4543b277ff3e8,0x5dd4ce44821448c2,0x5dd5f717126d94cf,0x5dd71fe9a2c6e0dc,0x5dd80bb785d6027c,0x5dd9eb981e0dcdd0,0x5ddd79bc61e43400,
0x5dddd3b1ee87bab3,0x5ddfe85261f02860,0x5de0a5039b436d68,0x5de157ef3a1528a5,0x5de2b9a40eabdb15,0x5de3e2769f052722,0x5de5f717126d94cf,0x5de71fe9a2c6e0dc,
0x5de795d0944e71ac,0x5de80bb785d6027c,0x5de9e564807aa7c1,0x5dedd3b1ee87bab3,0x5def726b70689790,0x5defe85261f02860,0x5df02f1ca9bbdc98,0x5df0a5039b436d68,
0x5df208c9a46081dd,0x5df2b9a40eabdb15,0x5df3a78326415eba,0x5df3e2769f052722,0x5df43ae3d42ad3be,0x5df795d0944e71ac,0x5df7ee3dc9741e48,0x5df80bb785d6027c,
0x5df9e564807aa7c1,0x5dfdd3b1ee87bab3,0x5dff726b70689790,0x5dffe85261f02860,0x5e002f1ca9bbdc98,0x5e00a714cfc9cf6d,0x5e015a006e9b8aaa,0x5e01b05c6f3ad541,
0x5e0208c9a46081dd,0x5e0235003ef3582b,0x5e0280c1ca6e74b2,0x5e031633acde4bbb,0x5e03a78326415eba,0x5e03f1337d36193c,0x5e043ae3d42ad3be,0x5e07ee3dc9741e48,
0x5e080bb785d6027c,0x5e09e564807aa7c1,0x5e0bc333e42c1110,0x5e0d9acfaa4a5450,0x5e0de26eccb8accd,0x5e0f726b70689790,0x5e0fe85261f02860,0x5e1001194926e83c,
0x5e100fd62757da56,0x5e102f1ca9bbdc98,0x5e10a714cfc9cf6d,0x5e112bb89f825257,0x5e11b05c6f3ad541,0x5e11f2ae571716b6,0x5e1235003ef3582b,0x5e1280c1ca6e74b2,
0x5e1314227857e9b6,0x5e13a78326415eba,0x5e13f1337d36193c,0x5e17ee3dc9741e48,0x5e1d79bc61e43400,0x5e1d9acfaa4a5450,0x5e1de26eccb8accd,0x5e1e869d8d5975f0,
0x5e1f726b70689790,0x5e1fe0f3f2d7af53,0x5e1fe85261f02860,0x5e2001194926e83c,0x5e200211ebf0ddd9,0x5e20054df1fc92dc,0x5e200877b83f6149,0x5e20762663678b96,
0x5e20f36bc4079573,0x5e212bb89f825257,0x5e216e0a875e93cc,0x5e21b05c6f3ad541,0x5e21f2ae571716b6,0x5e2314227857e9b6,0x5e235dd2cf4ca438,0x5e23a78326415eba,
0x5e23f1337d36193c,0x5e29e0305da81800,0x5e2d79bc61e43400,0x5e2e869d8d5975f0,0x5e2efc847ee106c0,0x5e2f726b70689790,0x5e2fe0f3f2d7af53,0x5e2fe85261f02860,
0x5e3001194926e83c,0x5e3003fb351ed20d,0x5e300877b83f6149,0x5e3008b306ee3f96,0x5e3064c2e7ed8df8,0x5e306a10227fa500,0x5e30762663678b96,0x5e30e966b7a610e2,
0x5e30ed60a393a228,0x5e30f36bc4079573,0x5e314dea2db3a414,0x5e316e0a875e93cc,0x5e31d9ec6c84a00b,0x5e31f2ae571716b6,0x5e32df473db62400,0x5e3d24e8b8c2c380,
0x5e3d79bc61e43400,0x5e3e10b69bd1e520,0x5e3efc847ee106c0,0x5e3f6501e0dc2b38,0x5e3fe0f3f2d7af53,0x5e3fe85261f02860,0x5e4001194926e83c,0x5e400877b83f6149,
0x5e4035e5b011ac26,0x5e4064c2e7ed8df8,0x5e406a10227fa500,0x5e40762663678b96,0x5e40a31ae3dc3e27,0x5e40d9568ad09906,0x5e40ed60a393a228,0x5e40f21875630fb1,
0x5e40f36bc4079573,0x5e41b106168d1822,0x5e41f2ae571716b6,0x5e42b048a99c9965,0x5e4b4d4cf2a48040,0x5e4d24e8b8c2c380,0x5e4d79bc61e43400,0x5e4efc847ee106c0,
0x5e4f6501e0dc2b38,0x5e4fe85261f02860,0x5e504b4317793b0a,0x5e50762663678b96,0x5e50b1c3837d96df,0x5e50f21875630fb1,0x5e50f36bc4079573,0x5e5108dd69febdb9,
0x5e51b106168d1822,0x5e51f2ae571716b6,0x5e52b048a99c9965,0x5e53af8b3cac1aa8,0x5e57b34a50b055e0,0x5e5b88cbb4e32576,0x5e5d8750db0227fc,0x5e5efc847ee106c0,
0x5e5f6501e0dc2b38,0x5e5fe85261f02860,0x5e60f36bc4079573,0x5e61b106168d1822,0x5e61f2ae571716b6,0x5e62b048a99c9965,0x5e63af8b3cac1aa8,0x5e648df9af769ca1,
0x5e678bc168a5206a,0x5e6a898921d3a433,0x5e6b67f7949e262c,0x5e6b88cbb4e32576,0x5e6d8750db0227fc,0x5e6f6501e0dc2b38,0x5e6fe85261f02860,0x5e715ef3c5e099e9,
0x5e719031f64818d8,0x5e71b106168d1822,0x5e72b048a99c9965,0x5e734d0edbdd1cca,0x5e739f212c899b03,0x5e73af8b3cac1aa8,0x5e747d8f9f541cfc,0x5e776aed48602120,
0x5e778bc168a5206a,0x5e789b6e0bd72152,0x5e7a898921d3a433,0x5e7b88cbb4e32576,0x5e7dfebd1c78a8cb,0x5e7ee1b15fc82e10,0x5e7f6501e0dc2b38,0x5e80198321c216c6,
0x5e803a5742071610,0x5e80f36bc4079573,0x5e813999d5169753,0x5e819031f64818d8,0x5e81b106168d1822,0x5e81f2ae571716b6,0x5e83af8b3cac1aa8,0x5e85e1917b751dc3,
0x5e869ce8e5b81ecc,0x5e876aed48602120,0x5e885782e30aa118,0x5e8a898921d3a433,0x5e8b88cbb4e32576,0x5e8dfebd1c78a8cb,0x5e8fe85261f02860,0x5e903a5742071610,
0x5e90f36bc4079573,0x5e90f5aeac4a1719,0x5e913999d5169753,0x5e91f2ae571716b6,0x5e9327b4eb131a34,0x5e93af8b3cac1aa8,0x5e95e1917b751dc3,0x5e9658fdbceb9e92,
0x5e969ce8e5b81ecc,0x5e985782e30aa118,0x5e998a468ec422f0,0x5e9b88cbb4e32576,0x5e9f97618564eafa,0x5e9fe85261f02860,0x5ea03a5742071610,0x5ea0f5aeac4a1719,
0x5ea13999d5169753,0x5ea18f108226d805,0x5ea327b4eb131a34,0x5ea36ba013df9a6e,0x5ea3af8b3cac1aa8,0x5ea448ed1288db94,0x5ea69ce8e5b81ecc,0x5ea98a468ec422f0,
0x5eab88cbb4e32576,0x5ead21701dcf67a5,0x5ead90169d240838,0x5eaf97618564eafa,0x5eb03a5742071610,0x5eb18f108226d805,0x5eb241a22a47f8d2,0x5eb327b4eb131a34,
0x5eb36ba013df9a6e,0x5eb77a35e4615ff2,0x5eb98a468ec422f0,0x5ebb88cbb4e32576,0x5ebc8c71290396d7,0x5ebd21701dcf67a5,0x5ebd90169d240838,0x5ebf97618564eafa,
0x5ec03a5742071610,0x5ec13dfcb6278771,0x5ec62c10f5db062a,0x5ec77a35e4615ff2,0x5ec98180cca242b4,0x5ecb88cbb4e32576,0x5ecc8c71290396d7,0x5ecd90169d240838,
0x5ed016303d185de4,0x5ed03a5742071610,0x5ed13dfcb6278771,0x5ed164552b9eb7ac,0x5ed27a0e22368523,0x5ed2c48d9c9c6d8a,0x5ed321209979b207,0x5ed572eafc207d30,
0x5ed5bd6a76866597,0x5ed62c10f5db062a,0x5ed98180cca242b4,0x5edc8c71290396d7,0x5edd90169d240838,0x5ee016303d185de4,0x5ee03a5742071610,0x5ee045d672e509f9,
0x5ee050cda58f6244,0x5ee0a2696fc24e76,0x5ee0ab2f31e42eb2,0x5ee0f7e01cd28f28,0x5ee13dfcb6278771,0x5ee255e71d47ccf7,0x5ee27a0e22368523,0x5ee2c48d9c9c6d8a,
0x5ee4e24ee8659c80,0x5ee572eafc207d30,0x5ee62c10f5db062a,0x5ee724bf37511f40,0x5ee7833fa59d0dfd,0x5eeaab7eb639e450,0x5eeb354279418f04,0x5eec8c71290396d7,
0x5eed90169d240838,0x5ef01f39fe540bef,0x5ef07bccfb31506c,0x5ef27a0e22368523,0x5ef2d6a11f13c9a0,0x5ef3d13cd1f88cf6,0x5ef62c10f5db062a,0x5ef7833fa59d0dfd,
0x5efb354279418f04,0x5efd90169d240838,0x5efdb9db3af4d371,0x5f0016303d185de4,0x5f00b5ef074caa3c,0x5f016d5eecda65b7,0x5f01a02d4be6defb,0x5f027a0e22368523,
0x5f02a3d2c007505c,0x5f03d13cd1f88cf6,0x5f0424c60d9a2368,0x5f0572eafc207d30,0x5f062c10f5db062a,0x5f07833fa59d0dfd,0x5f08da6e555f15d0,0x5f0b354279418f04,
0x5f0d90169d240838,0x5f0db9db3af4d371,0x5f0e509043ed71be,0x5f10b5ef074caa3c,0x5f115d017e8fd720,0x5f127a0e22368523,0x5f12a3d2c007505c,0x5f134ae5374a7d40,
0x5f1467f1daf12b43,0x5f15bf208ab33316,0x5f15f598c0471ca0,0x5f162c10f5db062a,0x5f17833fa59d0dfd,0x5f18da6e555f15d0,0x5f1910e68af2ff5a,0x5f1b354279418f04,
0x5f1d90169d240838,0x5f1e509043ed71be,0x5f1ede3b8baa6200,0x5f20b5ef074caa3c,0x5f21162bdab15eff,0x5f227a0e22368523,0x5f22a3d2c007505c,0x5f2467f1daf12b43,
0x5f24fea6e3e9c990,0x5f25f598c0471ca0,0x5f262c10f5db062a,0x5f28da6e555f15d0,0x5f2910e68af2ff5a,0x5f2a2314821a472f,0x5f2a3e509ce43bf4,0x5f2b354279418f04,
0x5f2d90169d240838,0x5f2e509043ed71be,0x5f30b5ef074caa3c,0x5f31162bdab15eff,0x5f325ed2076c905e,0x5f32a3d2c007505c,0x5f3355c3e3c9e36e,0x5f3467f1daf12b43,
0x5f34a5ae52088007,0x5f34e36ac91fd4cb,0x5f34fea6e3e9c990,0x5f35f598c0471ca0,0x5f38da6e555f15d0,0x5f3a2314821a472f,0x5f3b354279418f04,0x5f3d00a5d5aed525,
0x5f3e509043ed71be,0x5f40783290355578,0x5f40b5ef074caa3c,0x5f41162bdab15eff,0x5f42a3d2c007505c,0x5f4355c3e3c9e36e,0x5f44a5ae52088007,0x5f44e36ac91fd4cb,
0x5f45f598c0471ca0,0x5f4764616a11639b,0x5f48da6e555f15d0,0x5f4a2314821a472f,0x5f4d00a5d5aed525,0x5f4e509043ed71be,0x5f50783290355578,0x5f513167f57b53c4,
0x5f51e6fb39ff9c73,0x5f52a0309f459abf,0x5f5336e5a83e390c,0x5f54a5ae52088007,0x5f55f598c0471ca0,0x5f560507de0cf1d1,0x5f56ec8a9ca46fb0,0x5f5764616a11639b,
0x5f5e509043ed71be,0x5f60464316222048,0x5f60783290355578,0x5f610ee7992df3c5,0x5f6186be669ae7b0,0x5f61d78c1c39c742,0x5f61e6fb39ff9c73,0x5f625ed2076c905e,
0x5f634654c6040e3d,0x5f63f6018c064722,0x5f6407b5078c7680,0x5f64a5ae52088007,0x5f64fea6e3e9c990,0x5f65555b180ab8ec,0x5f65f598c0471ca0,0x5f660507de0cf1d1,
0x5f70464316222048,0x5f706765af6e24d7,0x5f70783290355578,0x5f70e680be5e83fc,0x5f70f83439e4b35a,0x5f7127df56378e5d,0x5f7219d14ed1d060,0x5f73f6018c064722,
0x5f7407b5078c7680,0x5f74a5ae52088007,0x5f75555b180ab8ec,0x5f75f598c0471ca0,0x5f760507de0cf1d1,0x5f76b4b4a40f2ab6,0x5f800cd7a14d2ed9,0x5f806c65933135e4,
0x5f80783290355578,0x5f80afb1180a4396,0x5f8127df56378e5d,0x5f8296a80001d558,0x5f83f6018c064722,0x5f85555b180ab8ec,0x5f85f598c0471ca0,0x5f860507de0cf1d1,
0x5f86b4b4a40f2ab6,0x5f87e37c7901c2c0,0x5f8b5a5ea40fa00c,0x5f8be1fc0002c004,0x5f8df10252096ab3,0x5f90000452080ab1,0x5f90783290355578,0x5f90afb1180a4396,
0x5f9127df56378e5d,0x5f9296a80001d558,0x5f930286180a7e41,0x5f93cdf221f72e35,0x5f95555b180ab8ec,0x5f95f598c0471ca0,0x5f960507de0cf1d1,0x5f973c5200024aae,
0x5f97c3ef5bf56aa6,0x5f990789a40f6561,0x5f9b5a5ea40fa00c,0x5f9fafe9cff1e388,0x5fa0000452080ab1,0x5fa02b32b3b856f1,0x5fa043d300019aad,0x5fa0afb1180a4396,
0x5fa11eae27b41fd2,0x5fa20f0aa40eb560,0x5fa296a80001d558,0x5fa30286180a7e41,0x5fa483c6fb0bb809,0x5fa5118c6a1128f0,0x5fa5555b180ab8ec,0x5fa8140e30139c80,
0x5fa90789a40f6561,0x5fa9d91dc10e6644,0x5fab5a5ea40fa00c,0x5fae6f6e7f791c20,0x5fb0000452080ab1,0x5fb043d300019aad,0x5fb05f9243ec11bc,0x5fb08dc9c10d7b98,
0x5fb1312660eb129f,0x5fb20f0aa40eb560,0x5fb296a80001d558,0x5fb3246d6f07463f,0x5fb3c326898b1b25,0x5fb483c6fb0bb809,0x5fb5555b180ab8ec,0x5fb6f8835208bab2,
0x5fb8140e30139c80,0x5fb9d91dc10e6644,0x5fba32839fe01c60,0x5fba99be328f0328,0x5fbb5a5ea40fa00c,0x5fbea0af180ba398,0x5fc0000452080ab1,0x5fc241e5a689e15d,
0x5fc252d95208455c,0x5fc3c326898b1b25,0x5fc42376c24b6997,0x5fc483c6fb0bb809,0x5fc5555b180ab8ec,0x5fc6e78fa68a56b3,0x5fc857dcde0d2c7c,0x5fca99be328f0328,
0x5fcb5a5ea40fa00c,0x5fd02d79884d2d26,0x5fd08dc9c10d7b98,0x5fd120f4fc48f607,0x5fd241e5a689e15d,0x5fd362d650caccb3,0x5fd42376c24b6997,0x5fd483c6fb0bb809,
0x5fd6d69bfb0bf2b4,0x5fd8140e30139c80,0x5fd857dcde0d2c7c,0x5fd9d91dc10e6644,0x5fda99be328f0328,0x5fdac9e64eef2a61,0x5fdb5a5ea40fa00c,0x5fe0d03efbf98932,
0x5fe2d25dfbaa5708,0x5fe362d650caccb3,0x5fe3f34ea5eb425e,0x5fe42376c24b6997,0x5fe483c6fb0bb809,0x5fe776ae889d49fc,0x5fe9187d4f8dc960,0x5fe9d91dc10e6644,
0x5fea99be328f0328,0x5feac9e64eef2a61,0x5feafa0e6b4f519a,0x5feb5a5ea40fa00c,0x5ff0a016df9961f9,0x5ff0d03efbf98932,0x5ff1b16d51696bb2,0x5ff2d25dfbaa5708,
0x5ff3f34ea5eb425e,0x5ff42376c24b6997,0x5ff4539edeab90d0,0x5ff4a454defafda5,0x5ff5f56da59c1034,0x5ff776ae889d49fc,0x5ff7973c6c8c8f98,0x5ff9187d4f8dc960,
0x5ff9688696567504,0x5ffa99be328f0328,0x5ffac9e64eef2a61,0x6000a016df9961f9,0x6000d03efbf98932,0x600140d626b17a72,0x600190df6d7a2616,0x60019902e675f77d,
0x6002d25dfbaa5708,0x6003528f5ed329e5,0x6003f34ea5eb425e,0x6004539edeab90d0,0x600776ae889d49fc,0x6009187d4f8dc960,0x6009385e79f64dcb,0x6009688696567504,
0x600a99be328f0328,0x600ac9e64eef2a61,0x600c1aff15903cf0,0x601078123c350c27,0x601087ac74a5edc4,0x6010a016df9961f9,0x601140d626b17a72,0x601180987b828348,
0x601190df6d7a2616,0x60119902e675f77d,0x6011c92b02d61eb6,0x601261c6d0f265c8,0x6013528f5ed329e5,0x6013f34ea5eb425e,0x6014539edeab90d0,0x6016fa38852eff3a,
0x601776ae889d49fc,0x6019187d4f8dc960,0x601a99be328f0328,0x601ac9e64eef2a61,0x601c0f203cd9e36e,0x601c1aff15903cf0,0x601f1d80db92b080,0x60206feec3393ac0,
0x602078123c350c27,0x602083f114eb65a9,0x6020a016df9961f9,0x602140d626b17a72,0x60219902e675f77d,0x6021c92b02d61eb6,0x602261c6d0f265c8,0x60227dec9ba06218,
0x6023f34ea5eb425e,0x6024539edeab90d0,0x6026fa38852eff3a,0x602776ae889d49fc,0x6029187d4f8dc960,0x6029c2e762bb96b5,0x602a99be328f0328,0x602c0f203cd9e36e,
0x602fa09304e2e934,0x6030158df6d4190f,0x60319902e675f77d,0x6031d73de82d1cde,0x603261c6d0f265c8,0x6033e53bc0944436,0x603568b0b03622a4,0x603776ae889d49fc,
0x6039c2e762bb96b5,0x603c0f203cd9e36e,0x603c8b9640482e30,0x603dd7d9a0de6651,0x603fa09304e2e934,0x60400e84842899fb,0x6040158df6d4190f,0x604053c8f88b3e70,
0x60419902e675f77d,0x6041d73de82d1cde,0x604261c6d0f265c8,0x60431ffc8f6d9575,0x6043e53bc0944436,0x604468bb36ae0e0c,0x6046f32f12838026,0x604776ae889d49fc,
0x6047b86e43aa2ee7,0x6049c2e762bb96b5,0x604c8b9640482e30,0x604dd7d9a0de6651,0x604e999418af5588,0x604fa09304e2e934,0x60500e84842899fb,0x605053c8f88b3e70,
0x605083f114eb65a9,0x60519902e675f77d,0x6051c92b02d61eb6,0x6051d73de82d1cde,0x60525e42179ca63e,0x60531ffc8f6d9575,0x6054539edeab90d0,0x6056f32f12838026,
0x605776ae889d49fc,0x6057b86e43aa2ee7,0x6058bdaad332e2ce,0x6059c2e762bb96b5,0x605c8b9640482e30,0x605e999418af5588,0x605fa09304e2e934,0x6060093d6e27faac,
0x606037a32ddd4220,0x606053c8f88b3e70,0x6060b960474c2c31,0x6060ccba42a3c9a8,0x606159058813f257,0x60619902e675f77d,0x606446fa2ad22bb4,0x6064a8b895101332,
0x606776ae889d49fc,0x6067b86e43aa2ee7,0x60686f9a8f79df80,0x6068bdaad332e2ce,0x606b8ba0c6c01998,0x606c2f1eec0ae601,0x606fa09304e2e934,0x6070d3c3b54f48bc,
0x607137447c380fff,0x6071dac2a182dc68,0x60720ba1d6a1d027,0x60723abeaf15e421,0x607446fa2ad22bb4,0x6074a8b895101332,0x6076517349e39382,0x60766faf9c69b650,
0x6077b86e43aa2ee7,0x6079f3c697da8a74,0x607b8ba0c6c01998,0x607c2f1eec0ae601,0x607fa09304e2e934,0x6081066547191c40,0x608137447c380fff,0x60820ba1d6a1d027,
0x608446fa2ad22bb4,0x6084a8b895101332,0x6086b331b4217b00,0x6087b86e43aa2ee7,0x6089f3c697da8a74,0x608b8ba0c6c01998,0x608e6a77403b418e,0x608f0585228f1561,
0x608fa09304e2e934,0x6091066547191c40,0x6091dac2a182dc68,0x60920ba1d6a1d027,0x6093dccb7d9d4ba0,0x6094161af5b337f5,0x609446fa2ad22bb4,0x6096b331b4217b00,
0x6097b86e43aa2ee7,0x609888937c9872c4,0x609958b8b586b6a1,0x6099f3c697da8a74,0x609f0585228f1561,0x609fa09304e2e934,0x60a1dac2a182dc68,0x60a20ba1d6a1d027,
0x60a240b92d3c4031,0x60a2c13b6442dbff,0x60a376d4f1e3e7d7,0x60a4161af5b337f5,0x60a446fa2ad22bb4,0x60a5e7449caeb36e,0x60a888937c9872c4,0x60a958b8b586b6a1,
0x60a9f3c697da8a74,0x60ad345b7b9399e8,0x60af0585228f1561,0x60b156084900c44f,0x60b17093f44dfc54,0x60b2c13b6442dbff,0x60b376d4f1e3e7d7,0x60b5ccb8f1617b69,
0x60b71d6061565b14,0x60b888937c9872c4,0x60b8e3604368f8b0,0x60b9f3c697da8a74,0x60bf0585228f1561,0x60c045a1f48f328b,0x60c156084900c44f,0x60c2666e9d725613,
0x60c2c13b6442dbff,0x60c2eea1c7ab1ef5,0x60c376d4f1e3e7d7,0x60c5b22d46144364,0x60c71d6061565b14,0x60c888937c9872c4,0x60c8e3604368f8b0,0x60c93e2d0a397e9c,
0x60c9f3c697da8a74,0x60cf32eb85f75857,0x60d02365560fcd72,0x60d050cbb9781068,0x60d156084900c44f,0x60d1de3b73398d31,0x60d222550855f1a2,0x60d2666e9d725613,
0x60d2aa88328eba84,0x60d2eea1c7ab1ef5,0x60d6b331b4217b00,0x60d71d6061565b14,0x60d7d2f9eef766ec,0x60d82dc6b5c7ecd8,0x60d888937c9872c4,0x60d8e3604368f8b0,
0x60d93e2d0a397e9c,0x60df32eb85f75857,0x60e00164a895a1d7,0x60e00cb2245babf7,0x60e00e40c707513a,0x60e01066e717963e,0x60e0211b7f225c2b,0x60e02365560fcd72,
0x60e19a21de1d28c0,0x60e222550855f1a2,0x60e2666e9d725613,0x60e2aa88328eba84,0x60e2dab81b0af100,0x60e48927832204e0,0x60e5c6f43afbd99a,0x60e6b331b4217b00,
0x60e7782d2826e100,0x60e82dc6b5c7ecd8,0x60e888937c9872c4,0x60e8e3604368f8b0,0x60ee047d03e8ce00,0x60ef32eb85f75857,0x60f00cb2245babf7,0x60f00e40c707513a,
0x60f011e16b1e2dc4,0x60f0211b7f225c2b,0x60f02365560fcd72,0x60f026a86005c3fa,0x60f089bb89ab96fc,0x60f11c522e582af9,0x60f19a21de1d28c0,0x60f1ea8b2a79e391,
0x60f222550855f1a2,0x60f2aa88328eba84,0x60f2dab81b0af100,0x60f48927832204e0,0x60f4c6f4e7963600,0x60f5280ddf0eef3d,0x60f5c6f43afbd99a,0x60f60cfa0ce4c950,
0x60f6b331b4217b00,0x60f7782d2826e100,0x60f82dc6b5c7ecd8,0x60f8e3604368f8b0,0x60ff32eb85f75857,0x610003b15eb05ae0,0x6100077df0aa62a9,0x61000cb2245babf7,
0x6100100115f0b140,0x610011e16b1e2dc4,0x6100229f0b9abab0,0x61002365560fcd72,0x6100711c1b2aea3c,0x610089bb89ab96fc,0x61011c522e582af9,0x61014390b62042bf,
0x61019a21de1d28c0,0x6101ea8b2a79e391,0x6102aa88328eba84,0x6104c6f4e7963600,0x61060cfa0ce4c950,0x6106b331b4217b00,0x6107782d2826e100,0x61089f6e80acc000,
0x6108e3604368f8b0,0x610a4e935eab1060,0x610f32eb85f75857,0x610feeacef388f5f,0x61100cb2245babf7,0x61101e636cc71ac5,0x6110204fa993a60a,0x6110229f0b9abab0,
0x61102365560fcd72,0x6110711c1b2aea3c,0x6110aeaaaf6c9a1c,0x6110c371a4543052,0x6110de6074dbf1b8,0x61111c522e582af9,0x61114390b62042bf,0x6111cb60bb1e8240,
0x6112aa88328eba84,0x6114a1c6f1a2b1a0,0x61156913865b3e16,0x6116b331b4217b00,0x6116f7498a91cda1,0x6117782d2826e100,0x6118e3604368f8b0,0x611a4e935eab1060,
0x611feeacef388f5f,0x6120a4aa5a335862,0x61211c522e582af9,0x6121d4ffa9c94c69,0x61224ca77dee1f00,0x6122aa88328eba84,0x61230554f95f4070,0x6123dadd8224ae8b,
0x61256913865b3e16,0x6126f7498a91cda1,0x6128e3604368f8b0,0x61307743f6cb156c,0x6130d5e9a6dfb656,0x61311c522e582af9,0x6131d689a0b15735,0x61324ca77dee1f00,
0x6132aa88328eba84,0x61356913865b3e16,0x6135f45a9e641c90,0x6136c85930417fdf,0x6136f7498a91cda1,0x6138e3604368f8b0,0x613b72fb3ce52e80,0x613b8a736a0d5561,
0x613e6076eb01ffd4,0x6140d5e9a6dfb656,0x61411c522e582af9,0x61421db7239dd13e,0x61424ca77dee1f00,0x6142641fab1645e1,0x6142aa88328eba84,0x61431f7e969d7a36,
0x614522aafee2c973,0x61456913865b3e16,0x6146dfd15d69a6c0,0x6148279eda27c1a8,0x6148857f8ec85d2c,0x6148e3604368f8b0,0x614b8a736a0d5561,0x615003128e305b20,
0x6150d5e9a6dfb656,0x6151fab41ebe9846,0x61524ca77dee1f00,0x6152641fab1645e1,0x61531f7e969d7a36,0x615336f6c3c5a117,0x61556913865b3e16,0x61570ec1b7b9f482,
0x6158857f8ec85d2c,0x615940de7a4f9181,0x615b8a736a0d5561,0x615caf3de1ec3751,0x615ebe579fa29b58,0x616003128e305b20,0x6160d5e9a6dfb656,0x616127dd060f3d10,
0x6161fab41ebe9846,0x61624ca77dee1f00,0x6162641fab1645e1,0x61631f7e969d7a36,0x6165d27f12b2ebb1,0x616789aec6813e99,0x6168857f8ec85d2c,0x616940de7a4f9181,
0x616af80e2e1de469,0x616b8a736a0d5561,0x616caf3de1ec3751,0x616d18a96e43e4ec,0x616f623e5e01a8cc,0x617003128e305b20,0x61700f62615b729d,0x61701c772ffa8f80,
0x61705ce90cba79be,0x617078cdedb32038,0x61709577ca1fcc18,0x6170d5e9a6dfb656,0x6171fab41ebe9846,0x61724ca77dee1f00,0x617789aec6813e99,0x617940de7a4f9181,
0x617a5ae315eb66c0,0x617af80e2e1de469,0x617b4140cc159ce5,0x617b8a736a0d5561,0x617f623e5e01a8cc,0x6180018897485054,0x618003128e305b20,0x61801c772ffa8f80,
0x61802a8246e013b1,0x61803cb01e5a849f,0x61804c452c28139c,0x6180d5e9a6dfb656,0x6181684ee2cf274e,0x6181fab41ebe9846,0x61824ca77dee1f00,0x61847cd7cbe1ae80,
0x618940de7a4f9181,0x618a1c765436baf5,0x618af80e2e1de469,0x618b1ca77d19c0a7,0x618b4140cc159ce5,0x619003128e305b20,0x61900b26de7293cf,0x61901c772ffa8f80,
0x6190229f0b9abab0,0x619027abdd2c375e,0x61903cb01e5a849f,0x6191684ee2cf274e,0x6191b18180c6dfca,0x6191fab41ebe9846,0x61920d00c63c8665,0x61921f4d6dba7484,
0x61924ca77dee1f00,0x6197782d2826e100,0x619a1c765436baf5,0x619a8a42412a4faf,0x619af80e2e1de469,0x619b0a5ad59bd288,0x619b1ca77d19c0a7,0x619b2ef42497aec6,
0x61a003128e305b20,0x61a0155f35ae493f,0x61a1b18180c6dfca,0x61a1d61acfc2bc08,0x61a1fab41ebe9846,0x61a20d00c63c8665,0x61a21f4d6dba7484,0x61a24ca77dee1f00,
0x61a682877a2d3567,0x61aa8a42412a4faf,0x61aac12837a41a0c,0x61aaf80e2e1de469,0x61ab0a5ad59bd288,0x61ab2ef42497aec6,0x61b143b593d34b10,0x61b1d61acfc2bc08,
0x61b1fab41ebe9846,0x61b21f4d6dba7484,0x61b594a2f8c81dd4,0x61b64ba183b36b0a,0x61b682877a2d3567,0x61b6a720c92911a5,0x61baf80e2e1de469,0x61bb0a5ad59bd288,
0x61bd451e2f942a09,0x61c01b700a3be760,0x61c0e678c5816395,0x61c1d61acfc2bc08,0x61c21f4d6dba7484,0x61c268800bb22d00,0x61c410de29bb1389,0x61c447c42034dde6,
0x61c682877a2d3567,0x61c6a720c92911a5,0x61cb0a5ad59bd288,0x61cd451e2f942a09,0x61d01b700a3be760,0x61d01eeb1bf46920,0x61d02f7a3a96165f,0x61d0d964b8983816,
0x61d0e678c5816395,0x61d120d9cdb3afb2,0x61d141f80af70a30,0x61d143b593d34b10,0x61d1c906c2d99089,0x61d1d61acfc2bc08,0x61d268800bb22d00,0x61d3b4801fd74c7e,
0x61d410de29bb1389,0x61d447c42034dde6,0x61d715cb7a8ac6cf,0x61d9e3d2d4e0afb8,0x61db0a5ad59bd288,0x61dd451e2f942a09,0x61ddf441482b0e60,0x61e05334c523d22d,
0x61e08af9800bbcfa,0x61e0d42c1e037576,0x61e0e678c5816395,0x61e23278d9a68313,0x61e36ade1fa883ca,0x61e3a23378595e5f,0x61e3b4801fd74c7e,0x61e447c42034dde6,
0x61e6703ad2af4748,0x61e715cb7a8ac6cf,0x61e9e3d2d4e0afb8,0x61ea77f599ac6190,0x61eb0a5ad59bd288,0x61ed8ec02fc2f2bd,0x61f0d42c1e037576,0x61f0e678c5816395,
0x61f19ec57711e173,0x61f28df81f1c29ae,0x61f36ade1fa883ca,0x61f3a23378595e5f,0x61f3b4801fd74c7e,0x61f3d9511feeb0d8,0x61f4232ad13901a8,0x61f447c42034dde6,
0x61f5a5a179a0db4b,0x61f6703ad2af4748,0x61f715cb7a8ac6cf,0x61f8bd4ad4258ce8,0x61f9e3d2d4e0afb8,0x61fa5245d526dcc6,0x61fa7716d53e4120,0x61fb0a5ad59bd288,
0x61fd8ec02fc2f2bd,0x62002e63c50c6dd3,0x6200e678c5816395,0x6201b1121e8fcf92,0x62028df81f1c29ae,0x62036ade1fa883ca,0x6203b4801fd74c7e,0x6203d9511feeb0d8,
0x620447c42034dde6,0x6204a3ea78fd1cd5,0x6205a5a179a0db4b,0x62070362fa7f14a2,0x620796c2d36a6a18,0x6208bd4ad4258ce8,0x6209e3d2d4e0afb8,0x620a5245d526dcc6,
0x620a7716d53e4120,0x620b0a5ad59bd288,0x620d8ec02fc2f2bd,0x62102e63c50c6dd3,0x62108a6e4546e8b4,0x62128df81f1c29ae,0x62136ade1fa883ca,0x6213a2179fcb9a51,
0x6213b4801fd74c7e,0x6213d9511feeb0d8,0x62155bf18d2b3090,0x6215a5a179a0db4b,0x62170362fa7f14a2,0x6218bd4ad4258ce8,0x6219e3d2d4e0afb8,0x621a2d74d50f786c,
0x621a5245d526dcc6,0x621a7716d53e4120,0x621d8ec02fc2f2bd,0x6220659d452f845a,0x62208a6e4546e8b4,0x622231dfb29accc6,0x6223a2179fcb9a51,0x6223b4801fd74c7e,
0x62255bf18d2b3090,0x62262faa43d52299,0x62270362fa7f14a2,0x6228986be7c74687,0x622a2d74d50f786c,0x622a7716d53e4120,0x622d8ec02fc2f2bd,0x62308a6e4546e8b4,
0x62309ce4b1997ce8,0x6230d8ade08a5675,0x62315e26fbf0dabd,0x62315e34e837bcc4,0x62320d0eb283686c,0x6233b4801fd74c7e,0x62355bf18d2b3090,0x62362faa43d52299,
0x62370362fa7f14a2,0x62382a06d3c7fb80,0x623a7716d53e4120,0x623b13960bc51ca2,0x623d8ec02fc2f2bd,0x624004f529e0646c,0x6240d8ade08a5675,0x62426db6cdd2885a,
0x6242801f4dde3a87,0x6243842c122fbc87,0x62455bf18d2b3090,0x62461d41c3c9706c,0x62462faa43d52299,0x62470362fa7f14a2,0x6248aad467d2f8b4,0x624d7c57afb74090,
0x625004f529e0646c,0x625040cc45182000,0x625095f152d71451,0x6250d8ade08a5675,0x625144d90969a200,0x62522e6cf95d097e,0x62526db6cdd2885a,0x6252b0735b85ca7e,
0x6253842c122fbc87,0x62555bf18d2b3090,0x62570362fa7f14a2,0x625c5a5f5dc9e0c6,0x625d7c57afb74090,0x626004f529e0646c,0x62608a6e4546e8b4,0x6260d8ade08a5675,
0x62615ab442b31775,0x62615e26fbf0dabd,0x62622e6cf95d097e,0x6263842c122fbc87,0x62655bf18d2b3090,0x626a7716d53e4120,0x626c9b628ede4146,0x626f05dd8f6f46d8,
0x627004f529e0646c,0x62715ab442b31775,0x62722e6cf95d097e,0x62734328e11b5c07,0x6273842c122fbc87,0x62755bf18d2b3090,0x627744662b937522,0x627764e7c41da562,
0x6279aee12c247ab4,0x627b45a3760b8e3d,0x627c9b628ede4146,0x627f05dd8f6f46d8,0x628004f529e0646c,0x62815ab442b31775,0x6281cce82fbe78be,0x62822e6cf95d097e,
0x628363aa79a58c47,0x628457e4c8d9ae90,0x6284d9eb2b026f90,0x62855bf18d2b3090,0x628744662b937522,0x628764e7c41da562,0x628a0025297df354,0x628a1065f5c30b74,
0x628b45a3760b8e3d,0x628c9b628ede4146,0x628f05dd8f6f46d8,0x629004f529e0646c,0x62915ab442b31775,0x62922e6cf95d097e,0x62923eadc5a2219e,0x629373eb45eaa467,
0x6294d9eb2b026f90,0x62955bf18d2b3090,0x629764e7c41da562,0x6298b28676cdcc5b,0x6299efe45d38db34,0x629a0025297df354,0x629b45a3760b8e3d,0x62a08769e330ddd5,
0x62a0f10f12f1faa5,0x62a1cce82fbe78be,0x62a22e6cf95d097e,0x62a2327d2c6e4f86,0x62a23eadc5a2219e,0x62a457e4c8d9ae90,0x62a4c9aa5ebd5770,0x62a4d9eb2b026f90,
0x62a764e7c41da562,0x62a8b28676cdcc5b,0x62aa0025297df354,0x62ab45a3760b8e3d,0x62af2e7f8e1c0328,0x62b2223c60293766,0x62b2327d2c6e4f86,0x62b377fb78fbea6f,
0x62b3801bdf1e767f,0x62b4b96992783f50,0x62b4c9aa5ebd5770,0x62b75cc75dfb1952,0x62b764e7c41da562,0x62b8b28676cdcc5b,0x62b9fc14f66cad4c,0x62ba0025297df354,
0x62bb4bbbc2a57749,0x62bf265f27f97718,0x62bf328fc12d4930,0x62c0e5e286827a0f,0x62c0f10f12f1faa5,0x62c2307512e5ac82,0x62c2327d2c6e4f86,0x62c23eadc5a2219e,
0x62c3801bdf1e767f,0x62c38223f8a71983,0x62c4c9aa5ebd5770,0x62c4d9eb2b026f90,0x62c768f7f72eeb6a,0x62c8b28676cdcc5b,0x62ca0025297df354,0x62cb4bbbc2a57749,
0x62cf328fc12d4930,0x62cf369ff43e8f38,0x62d0e3da6cf9d70b,0x62d0e5e286827a0f,0x62d2307512e5ac82,0x62d2327d2c6e4f86,0x62d3801bdf1e767f,0x62d4c9aa5ebd5770,
0x62d4cc347ea82335,0x62d4cdba91ce9d78,0x62d765ebd0e1f6e4,0x62d8b28676cdcc5b,0x62d9ff211cb9a1d2,0x62da0025297df354,0x62da0129364244d6,0x62db4bbbc2a57749,
0x62df328fc12d4930,0x62e0e5e286827a0f,0x62e0ea74bff5e8d8,0x62e234033f94c9c9,0x62e237916c43e710,0x62e2d90b82954ea2,0x62e37f99d8bc4dbe,0x62e4cc347ea82335,
0x62e4cdba91ce9d78,0x62e4d1cac4dfe380,0x62e6bf5d7abaf7c8,0x62e765ebd0e1f6e4,0x62e8b28676cdcc5b,0x62e9ff211cb9a1d2,0x62ef328fc12d4930,0x62f043e669cee9bc,
0x62f0e3da6cf9d70b,0x62f0ea74bff5e8d8,0x62f18c70dca9792b,0x62f2307512e5ac82,0x62f2d90b82954ea2,0x62f37f99d8bc4dbe,0x62f4c9aa5ebd5770,0x62f4cc347ea82335,
0x62f4d1cac4dfe380,0x62f66c164fa7783a,0x62f6bf5d7abaf7c8,0x62f8b28676cdcc5b,0x62fde57314df4af8,0x62ff328fc12d4930,0x63003ed229f95232,0x63008e8b285db479,
0x63010f861c0c39d6,0x630187dea3360a62,0x63018c70dca9792b,0x6301deb3faf8a737,0x6302af67ed0b8edb,0x6302d90b82954ea2,0x63037f99d8bc4dbe,0x63066c164fa7783a,
0x6306bf5d7abaf7c8,0x6308b28676cdcc5b,0x6309fe1d0ff55050,0x630c459143dff5f3,0x630de57314df4af8,0x630e625dd57c8a4d,0x630f2a6f5b0abd20,0x630f328fc12d4930,
0x631014ac8e0d69aa,0x631015b09ad1bb2c,0x63103ed229f95232,0x63110f861c0c39d6,0x63118aeac982fee8,0x63118c70dca9792b,0x6311deb3faf8a737,0x6311df36015acff8,
0x6312af67ed0b8edb,0x63137f99d8bc4dbe,0x6313e771cb6398cf,0x63166c164fa7783a,0x6316bf5d7abaf7c8,0x631763e3b75953e0,0x6319fe1d0ff55050,0x631c985668914cc0,
0x631de57314df4af8,0x631e625dd57c8a4d,0x631f328fc12d4930,0x632014ac8e0d69aa,0x632015b09ad1bb2c,0x63207afe6d8e3a78,0x6320c6c857f3b46a,0x6320cfcbabc83449,
0x6320e6648ce4a2d0,0x6320fa734e164592,0x63210c79f5bf4550,0x63210f861c0c39d6,0x63218c70dca9792b,0x6321f4cad5b2ecfd,0x63222f7106215b00,0x63232c52ada8ce30,
0x63237f99d8bc4dbe,0x6323e771cb6398cf,0x6326bf5d7abaf7c8,0x632763e3b75953e0,0x632c985668914cc0,0x632e625dd57c8a4d,0x632ed4bf2f1ecf80,0x632f328fc12d4930,
0x633015b09ad1bb2c,0x63303240a975b50c,0x633073812ce034dc,0x63307afe6d8e3a78,0x63308811f474005f,0x63308893fad62920,0x6330c6c857f3b46a,0x63310f861c0c39d6,
0x63318c70dca9792b,0x6332095b9d46b880,0x633218a7b15d06f2,0x63322f7106215b00,0x63332c52ada8ce30,0x63337f99d8bc4dbe,0x6333e771cb6398cf,0x6336bf5d7abaf7c8,
0x63380c7a2708f600,0x633a526847cd2160,0x633c985668914cc0,0x633da1fa0444429d,0x633ed4bf2f1ecf80,0x633f328fc12d4930,0x634015b09ad1bb2c,0x63402682c20e83e1,
0x63403cf2d9cdd0cb,0x634073812ce034dc,0x6340748539a4865e,0x63408811f474005f,0x63408893fad62920,0x6340c6c857f3b46a,0x63410f861c0c39d6,0x634148f7cc0e70d0,
0x6341f98d82ce414d,0x634218a7b15d06f2,0x63432c52ada8ce30,0x6343809de5809f40,0x6343e771cb6398cf,0x6345ecca387c8ebd,0x6346bf5d7abaf7c8,0x63480c7a2708f600,
0x6348c4b5e7d3edb6,0x634a526847cd2160,0x634c985668914cc0,0x634da1fa0444429d,0x63502ac368c7af70,0x63503cf2d9cdd0cb,0x6350c6c857f3b46a,0x63510f861c0c39d6,
0x6351f98d82ce414d,0x6352301bd5e0a55e,0x635314de89252fc4,0x63532c52ada8ce30,0x6353e771cb6398cf,0x6355ecca387c8ebd,0x6356bf5d7abaf7c8,0x6358c4b5e7d3edb6,
0x635c9f4dcdb7c7a6,0x63607f3b3f220412,0x63610f861c0c39d6,0x63612792963342cc,0x6362547ab7ece814,0x636314de89252fc4,0x636344f77d7341b0,0x6363e771cb6398cf,
0x6364178abfb1aabb,0x6365ecca387c8ebd,0x6366bf5d7abaf7c8,0x63671f8f63571ba0,0x6368c4b5e7d3edb6,0x636aca0e54ece3a4,0x636c9f4dcdb7c7a6,0x636d53f78cae4020,
0x636d89ed8a1d39a7,0x636ed4bf2f1ecf80,0x63710f861c0c39d6,0x63712792963342cc,0x637157ab8a8154b8,0x637314de89252fc4,0x637344f77d7341b0,0x6373e771cb6398cf,
0x6374f6243f039841,0x6376bf5d7abaf7c8,0x6376d769f4e200be,0x6377da162b6e7bb5,0x6378c4b5e7d3edb6,0x637d89ed8a1d39a7,0x637e748d4682aba8,0x637ed4bf2f1ecf80,
0x6380eb7364d1ac65,0x63812792963342cc,0x6382ccb91ab014e2,0x638308d84c11ab49,0x638314de89252fc4,0x6384f6243f039841,0x6386d769f4e200be,0x6387da162b6e7bb5,
0x6388c4b5e7d3edb6,0x63894008e49068f4,0x6389bb5be14ce432,0x638d89ed8a1d39a7,0x638e145b5de687d0,0x638e748d4682aba8,0x6390ac3f9976c78e,0x63910f861c0c39d6,
0x63912792963342cc,0x639308d84c11ab49,0x6393e771cb6398cf,0x6394f6243f039841,0x639571773bc0137f,0x6396bf5d7abaf7c8,0x6396d769f4e200be,0x6398c4b5e7d3edb6,
0x6399025f66322b55,0x63994008e49068f4,0x639e748d4682aba8,0x63a030ec9cba4c50,0x63a0ac3f9976c78e,0x63a12792963342cc,0x63a1d488d43a772e,0x63a308d84c11ab49,
0x63a43d27c3e8df64,0x63a4f6243f039841,0x63a56570feac8f04,0x63a571773bc0137f,0x63a6d769f4e200be,0x63a9025f66322b55,0x63a94008e49068f4,0x63ab46267827b27e,
0x63ac87415390beb0,0x63ad4c440bbefc08,0x63ae748d4682aba8,0x63b030ec9cba4c50,0x63b12792963342cc,0x63b21e388fac3948,0x63b2370a305195da,0x63b2f006ab6c4eb7,
0x63b3f3157537f37c,0x63b461ffa1a1c071,0x63b4f6243f039841,0x63b571773bc0137f,0x63b5f93308cf3d06,0x63b94008e49068f4,0x63bb46267827b27e,0x63bd4c440bbefc08,
0x63c030ec9cba4c50,0x63c12792963342cc,0x63c133fb6685f115,0x63c2f006ab6c4eb7,0x63c3f3157537f37c,0x63c533cdbd61d5e0,0x63c571773bc0137f,0x63c5f93308cf3d06,
0x63c79c9df6afd2fd,0x63c94008e49068f4,0x63ca80c12cba4b58,0x63cb46267827b27e,0x63cd4c440bbefc08,0x63d14c9bbd8bb8c0,0x63d24faa87575d85,0x63d28d5405b59b24,
0x63d29fd89961d61e,0x63d2f006ab6c4eb7,0x63d3f3157537f37c,0x63d533cdbd61d5e0,0x63d5f93308cf3d06,0x63d79c9df6afd2fd,0x63d94008e49068f4,0x63d9f2e99c519520,
0x63db46267827b27e,0x63dd4c440bbefc08,0x63ddeca02fd3ed3a,0x63e05c11876c4ef5,0x63e13a1729df7dc6,0x63e14c9bbd8bb8c0,0x63e24faa87575d85,0x63e28d5405b59b24,
0x63e29fd89961d61e,0x63e2b25d2d0e1118,0x63e3f3157537f37c,0x63e533cdbd61d5e0,0x63e5f93308cf3d06,0x63e6f2ff88c4c44e,0x63e8efdad285f05b,0x63e9f2e99c519520,
0x63eb46267827b27e,0x63ed4c440bbefc08,0x63f14c9bbd8bb8c0,0x63f1ff7c754ce4ec,0x63f29fd89961d61e,0x63f3f3157537f37c,0x63f4c96c11134d36,0x63f4ff6688d9b5be,
0x63f59fc2aceea6f0,0x63f6f2ff88c4c44e,0x63f7ff509c668690,0x63f8efdad285f05b,0x63fb46267827b27e,0x63fbefc4e612c12d,0x6400764521b05f06,0x6400bec42d230288,
0x64014c9bbd8bb8c0,0x6401951ac8fe5c42,0x64029fd89961d61e,0x6403762f353d2fd8,0x6403f3157537f37c,0x6404c96c11134d36,0x6405730a7efe5be5,0x6405de35ccec08c2,
0x6406f2ff88c4c44e,0x6408b167b2888e89,0x6408efdad285f05b,0x640acad37b6b3740,0x640befc4e612c12d,0x640c996353fdcfdc,0x640f2e22199cf3d1,0x641037d201b2fd34,
0x64105398df3555ab,0x6410764521b05f06,0x64109078bbf46f17,0x6410bec42d230288,0x64113a1729df7dc6,0x64114c9bbd8bb8c0,0x64129fd89961d61e,0x6414c96c11134d36,
0x641533cdbd61d5e0,0x6415de35ccec08c2,0x6418b167b2888e89,0x641acad37b6b3740,0x641befc4e612c12d,0x641f2e22199cf3d1,0x641fb886f7895197,0x642004fe10692578,
0x642037d201b2fd34,0x642050efce58216c,0x64205398df3555ab,0x6420bec42d230288,0x6420c236df9f5afa,0x64214c9bbd8bb8c0,0x64229fd89961d61e,0x6422fc6f7bbefd00,
0x6423b4a2553a91aa,0x6424c96c11134d36,0x642acad37b6b3740,0x642befc4e612c12d,0x642d8ef37fd7da7f,0x642f2e22199cf3d1,0x642f7354889322b4,0x642fb886f7895197,
0x643004fe10692578,0x643019ae3f533824,0x64302af6ef60a372,0x643037d201b2fd34,0x643038e7cf51e90d,0x64307d0470a92c17,0x64314c9bbd8bb8c0,0x6432fc6f7bbefd00,
0x6433b4a2553a91aa,0x64343f073326ef70,0x6434c96c11134d36,0x643553d0eeffaafc,0x643a1e604cd337f5,0x643aa8c52abf95bb,0x643d8ef37fd7da7f,0x643e5e8accba6728,
0x643f2e22199cf3d1,0x643f398ffeb0e900,0x643f7354889322b4,0x644037d201b2fd34,0x64407d0470a92c17,0x64414c9bbd8bb8c0,0x64421573bb757858,0x64432a3d774e33e4,
0x64443f073326ef70,0x6444c96c11134d36,0x644553d0eeffaafc,0x64469ad0aa52d66e,0x6447967f666e5a07,0x6447f4ccd521c0dd,0x64494ec8fff0ab4c,0x644a1e604cd337f5,
0x644aa8c52abf95bb,0x644ca641333815e3,0x644f2e22199cf3d1,0x644f7354889322b4,0x6450ce7400224ce6,0x6451b7264cc21182,0x6451e95c4c3c8168,0x6452418b2aae6f48,
0x64539b87557d59b7,0x6453e6d854b50190,0x64543f073326ef70,0x6454c96c11134d36,0x645553d0eeffaafc,0x6456689aaad86688,0x6457967f666e5a07,0x645aa8c52abf95bb,
0x645b6250c005a6ec,0x645ca641333815e3,0x645dea31a66a84da,0x645f2e22199cf3d1,0x645f7354889322b4,0x645fd7c087880280,0x64607335d98fa28b,0x6460ab8a694b8b67,
0x64616515fe919c98,0x6461b7264cc21182,0x6462418b2aae6f48,0x6463caae0cd70d22,0x64643f073326ef70,0x6464c96c11134d36,0x64673172a8c22620,0x6467967f666e5a07,
0x646959cedbbee908,0x646a6392bbc966d8,0x646b6250c005a6ec,0x646dea31a66a84da,0x646f2e22199cf3d1,0x646f7354889322b4,0x6470440f2235ef20,0x64707e3bb55de047,
0x64717cf9b99a205b,0x6472418b2aae6f48,0x64724c91067cad04,0x6473caae0cd70d22,0x6474c96c11134d36,0x6476d1edf55a0b1a,0x6477119d76691b1f,0x6477514cf7782b24,
0x647959cedbbee908,0x647a6392bbc966d8,0x647dea31a66a84da,0x647f2e22199cf3d1,0x648039094667b164,0x64817cf9b99a205b,0x6482418b2aae6f48,0x648489bc90043d31,
0x6484c96c11134d36,0x6487119d76691b1f,0x6487514cf7782b24,0x6488558de99b8a16,0x648959cedbbee908,0x648d68112d58d561,0x648f2e22199cf3d1,0x649039094667b164,
0x6491bca93aa93060,0x6492418b2aae6f48,0x6493035b24cf2ec6,0x649382ba26ed4ed0,0x6494474b98019dbd,0x649489bc90043d31,0x64962e9500470be7,0x6497119d76691b1f,
0x649959cedbbee908,0x649c610ec441e700,0x649d68112d58d561,0x64a0440f2235ef20,0x64a049a584685941,0x64a0bdeb366cf04c,0x64a0c62f9b479e99,0x64a0d9a0c4872128,
0x64a1bca93aa93060,0x64a2231425a0aefd,0x64a2418b2aae6f48,0x64a3035b24cf2ec6,0x64a374df5fe03662,0x64a3e6639af13dfe,0x64a489bc90043d31,0x64a62e9500470be7,
0x64a6528ef33beb10,0x64a959cedbbee908,0x64ac610ec441e700,0x64ad68112d58d561,0x64add9956869dcfd,0x64b049a584685941,0x64b05a41c269011e,0x64b2418b2aae6f48,
0x64b3035b24cf2ec6,0x64b313f762cfd6a3,0x64b374df5fe03662,0x64b3ada17d68ba30,0x64b3e6639af13dfe,0x64b489bc90043d31,0x64b5cdad0336ac28,0x64b62e9500470be7,
0x64b959cedbbee908,0x64ba041534587472,0x64ba3cd751e0f840,0x64bd2f4f0fd05193,0x64bdd9956869dcfd,0x64c05a41c269011e,0x64c0f3ebdd01e4ab,0x64c1aece739c17f2,
0x64c3035b24cf2ec6,0x64c313f762cfd6a3,0x64c374df5fe03662,0x64c3ada17d68ba30,0x64c457e7d602459a,0x64c4a146318b7145,0x64c5cdad0336ac28,0x64c62e9500470be7,
0x64c6bc7a4a1c556a,0x64c793bdef7aca98,0x64c959cedbbee908,0x64ca041534587472,0x64ca3cd751e0f840,0x64cb1fdfc8030778,0x64cd2f4f0fd05193,0x64d06606932c9b28,
0x64d3035b24cf2ec6,0x64d3587e511bf47b,0x64d374df5fe03662,0x64d3ada17d68ba30,0x64d518acd4fe45e6,0x64d62e9500470be7,0x64d6bc7a4a1c556a,0x64d959cedbbee908,
0x64d9cb5316cff0a4,0x64da041534587472,0x64da3cd751e0f840,0x64dd2f4f0fd05193,0x64e02d4475a4175a,0x64e06606932c9b28,0x64e0d1a865dbd5bf,0x64e1d111eac226de,
0x64e209d4084aaaac,0x64e25914cc35a35c,0x64e3587e511bf47b,0x64e374df5fe03662,0x64e518acd4fe45e6,0x64e5ea938f8d4da8,0x64e6bc7a4a1c556a,0x64e843e6b0762307,
0x64e876c6659cd9d0,0x64e9cb5316cff0a4,0x64ea3cd751e0f840,0x64eab99ae0233a4d,0x64ed2f4f0fd05193,0x64efa5033f7d68d9,0x64f01535568a83ad,0x64f04f026f37c6ad,
0x64f06606932c9b28,0x64f091f8e4ccc5ba,0x64f104881b028c88,0x64f137ed4dbba2ea,0x64f1d111eac226de,0x64f374df5fe03662,0x64f518acd4fe45e6,0x64f581a03245c9c7,
0x64f5ea938f8d4da8,0x64f6b0b57958bb60,0x64fa3cd751e0f840,0x64fab99ae0233a4d,0x64fd2f4f0fd05193,0x64ff30e390908340,0x64ffa5033f7d68d9,0x6500005a2a6b064f,
0x650026dc8fafeabc,0x6500308b6a2a0662,0x65006606932c9b28,0x65006feeaba9fa3e,0x6500736ede332cb6,0x6500cef9f0741f09,0x65032493a0d07e80,0x650374df5fe03662,
0x650446c61a6f3e24,0x650518acd4fe45e6,0x650581a03245c9c7,0x6505ea938f8d4da8,0x6508189fdf800980,0x650a3cd751e0f840,0x650a9351b8e19950,0x650d2f4f0fd05193,
0x650e6a2927a6dd36,0x650fa5033f7d68d9,0x65106606932c9b28,0x65106feeaba9fa3e,0x6510cef9f0741f09,0x6510ff2b30331f1c,0x6512a2f8a5512ea0,0x651446c61a6f3e24,
0x651518acd4fe45e6,0x65153ef5fc3fe6e3,0x6515ea938f8d4da8,0x65174bb6cea57a48,0x6517d5ff46efef9b,0x65195877a10b0dad,0x651a3cd751e0f840,0x651a9351b8e19950,
0x651fa5033f7d68d9,0x65206feeaba9fa3e,0x6521312ad8b78947,0x65232d411d9ba3f3,0x652446c61a6f3e24,0x652518acd4fe45e6,0x6525ea938f8d4da8,0x65276d0be9a86bba,
0x6527d5ff46efef9b,0x65295877a10b0dad,0x652a9351b8e19950,0x652bbd814336ac3a,0x652f3c0fe235e4f8,0x652fa5033f7d68d9,0x65306feeaba9fa3e,0x6531312ad8b78947,
0x65332d411d9ba3f3,0x65338589ed61af1b,0x6533ee7d4aa932fc,0x653518acd4fe45e6,0x6535ea938f8d4da8,0x65376d0be9a86bba,0x653a9351b8e19950,0x653bbd814336ac3a,
0x653f0feb7a52df64,0x653f3c0fe235e4f8,0x653fa5033f7d68d9,0x65409c13138cffd2,0x6541312ad8b78947,0x654141d566390200,0x65436a1013002240,0x6543ee7d4aa932fc,
0x654518acd4fe45e6,0x6545adc49a28cf5b,0x65486b170c1a7910,0x654a9351b8e19950,0x654bbd814336ac3a,0x654ce7b0cd8bbf24,0x654f0feb7a52df64,0x654fa5033f7d68d9,
0x65502db80fd571e0,0x65504e9990a708cc,0x65509c13138cffd2,0x6550e3b155d19241,0x6551312ad8b78947,0x655141d566390200,0x6551c6429de212bc,0x655245482f1b1967,
0x6552a2f8a5512ea0,0x655637d3455a976b,0x65574bf09bbe278b,0x65586b170c1a7910,0x6558f525b74c4120,0x655a9351b8e19950,0x655bbd814336ac3a,0x655f0feb7a52df64,
0x65604e9990a708cc,0x65609c13138cffd2,0x6560d3409568c6cb,0x6560e3b155d19241,0x6561c6429de212bc,0x6561f26705c51850,0x656245482f1b1967,0x656250514913dacc,
0x6562a2f8a5512ea0,0x6562da5ff445a2dc,0x656637d3455a976b,0x65674bf09bbe278b,0x656790f7f1570b93,0x65686b170c1a7910,0x6568f525b74c4120,0x656a9351b8e19950,
0x656c028898cf9042,0x656f0feb7a52df64,0x6570304efc812047,0x65709c13138cffd2,0x6570b225477e829c,0x65710a6e17448dc4,0x657216530d73b829,0x657245482f1b1967,
0x657250514913dacc,0x6572da5ff445a2dc,0x65755db42a9729ee,0x6575c53f2afc7ffa,0x657642dc5f5358d0,0x65774bf09bbe278b,0x657790f7f1570b93,0x65786b170c1a7910,
0x657a9351b8e19950,0x657b43e3586dafa0,0x657c028898cf9042,0x657d893a099137d3,0x657f0feb7a52df64,0x6582a69a7412f7d6,0x6582b7dc497930d8,0x6582da5ff445a2dc,
0x65831f6749de86e4,0x6585c53f2afc7ffa,0x65864f4dd62e480a,0x65874bf09bbe278b,0x658790f7f1570b93,0x6588f525b74c4120,0x65897f34627e0930,0x658c028898cf9042,
0x658d893a099137d3,0x658f0feb7a52df64,0x6591877403b6a651,0x659295589eacbed4,0x6592a69a7412f7d6,0x6592b7dc497930d8,0x65931f6749de86e4,0x659435eccf87bbe8,
0x6595c53f2afc7ffa,0x6595d6810062b8fc,0x65973aaec657ee89,0x65974bf09bbe278b,0x6598f525b74c4120,0x65997f34627e0930,0x659d893a099137d3,0x659f0feb7a52df64,
0x65a12889ee046cc6,0x65a29df9895fdb55,0x65a2a69a7412f7d6,0x65a2b7dc497930d8,0x65a36e43a1cd59df,0x65a435eccf87bbe8,0x65a5c53f2afc7ffa,0x65a74bf09bbe278b,
0x65a8d2a20c7fcf1c,0x65a8f525b74c4120,0x65abf9e7ae1c73c1,0x65ad893a099137d3,0x65af0feb7a52df64,0x65b11748189e33c4,0x65b2a69a7412f7d6,0x65b36e43a1cd59df,
0x65b435eccf87bbe8,0x65b74bf09bbe278b,0x65b943680369aae2,0x65b9a2ec24ed4da6,0x65bbf9e7ae1c73c1,0x65bd893a099137d3,0x65be50e3374b99dc,0x65bf0feb7a52df64,
0x65c046fe0030b53a,0x65c060e0c04a0abd,0x65c11748189e33c4,0x65c12889ee046cc6,0x65c176cc3a21d688,0x65c1af2f3596c46b,0x65c2fd7daae37e19,0x65c335e0a6586bfc,
0x65c435eccf87bbe8,0x65c4f4f5128f0170,0x65c55d1a1ec5c0b5,0x65c5b3fd559646f8,0x65c8f525b74c4120,0x65c943680369aae2,0x65cbf146c3695740,0x65cd893a099137d3,
0x65d005600e37419d,0x65d045c9e88de2c8,0x65d060e0c04a0abd,0x65d06e1f263f6a1b,0x65d09d472b2fd244,0x65d0adeef4c4a20d,0x65d12889ee046cc6,0x65d1658a64bb9d86,
0x65d176cc3a21d688,0x65d1af2f3596c46b,0x65d28eb96bb20f25,0x65d2fce39f1214e0,0x65d335e0a6586bfc,0x65d435eccf87bbe8,0x65d5157705a306a2,0x65d8f525b74c4120,
0x65da09430dafd140,0x65db027c6fa04056,0x65dbf146c3695740,0x65dd893a099137d3,0x65deed67cf866d60,0x65e007fbd1c117a8,0x65e08801e658bf9e,0x65e0974204068bce,
0x65e176cc3a21d688,0x65e1af2f3596c46b,0x65e22f354a2e6c61,0x65e28eb96bb20f25,0x65e435eccf87bbe8,0x65e5157705a306a2,0x65e80bf9baa1a37c,0x65ea73363d5acc30,
0x65eb027c6fa04056,0x65ebf146c3695740,0x65ed1974ee839276,0x65efa032887489f3,0x65f007fbd1c117a8,0x65f077c0eccebd05,0x65f08801e658bf9e,0x65f1af2f3596c46b,
0x65f1c7103df7ad1c,0x65f22f354a2e6c61,0x65f39a35ab23b835,0x65f435eccf87bbe8,0x65f4bd92f2f649f6,0x65f5157705a306a2,0x65f5f5013bbe515c,0x65f7b415a7f4e6d0,
0x65f80bf9baa1a37c,0x65f91775fa134c8c,0x65fa22f23984f59c,0x65fa73363d5acc30,0x65fd1974ee839276,0x65ffa032887489f3,0x660007fbd1c117a8,0x66004bcee3785eaf,
0x6600b7c3f71a9100,0x6601af2f3596c46b,0x6601c340368c3a10,0x6601c7103df7ad1c,0x66039a35ab23b835,0x660409fac6315d92,0x660435eccf87bbe8,0x6605157705a306a2,
0x660716767fdb2997,0x6607b415a7f4e6d0,0x66091775fa134c8c,0x660a22f23984f59c,0x660fa032887489f3,0x661007fbd1c117a8,0x6610d09901565674,0x661113781132c0b8,
0x661208fb4bf93a9d,0x66139a35ab23b835,0x6615157705a306a2,0x661716767fdb2997,0x66191775fa134c8c,0x66199d3419cc2114,0x661a22f23984f59c,0x661b5b548427d9c5,
0x661fa032887489f3,0x6620d09901565674,0x662113781132c0b8,0x66221ef450a469c8,0x6622d1987b8e7969,0x662462d2dab8f701,0x6625157705a306a2,0x66255856157f70e6,
0x66291775fa134c8c,0x662938e5820181ae,0x662b5b548427d9c5,0x662fa032887489f3,0x663007fbd1c117a8,0x66308db9f179ec30,0x6630d09901565674,0x663113781132c0b8,
0x663208fb4bf93a9d,0x6632d1987b8e7969,0x663335e7135918cf,0x6634b1286dd8673c,0x663504bf41abec11,0x66391775fa134c8c,0x663938e5820181ae,0x663b5b548427d9c5,
0x663f8f7ac47d6f62,0x664007fbd1c117a8,0x664010964f738756,0x6640214e136aa1e7,0x66408db9f179ec30,0x6640b7c3f71a9100,0x6640d09901565674,0x664113781132c0b8,
0x6641728568494b84,0x664208fb4bf93a9d,0x66429f712fa929b6,0x664335e7135918cf,0x664362cd1e8a53e8,0x664504bf41abec11,0x66483009e2e9e2eb,0x664c6430233f7888,
0x664f047b64108640,0x664f8f7ac47d6f62,0x66507fa2cddcdbec,0x6650d09901565674,0x6651993630eb9540,0x665303bfc773c91c,0x6653fbe3a2944d4e,0x665504bf41abec11,
0x66562f0a68b1bff6,0x66583009e2e9e2eb,0x66595a5509efb6d0,0x665c6430233f7888,0x665df9d573de73f5,0x665f8f7ac47d6f62,0x6660d09901565674,0x66615d62b2ddb31e,
0x66616e1a76d4cdaf,0x666255868dfe3750,0x666303bfc773c91c,0x6663fbe3a2944d4e,0x6664f4077db4d180,0x666504bf41abec11,0x6667272e43d24428,0x66683009e2e9e2eb,
0x66695a5509efb6d0,0x666c6430233f7888,0x666df9d573de73f5,0x666f4915ebb9c10d,0x6670d09901565674,0x667116fdda1a04c9,0x66715d62b2ddb31e,0x6673fbe3a2944d4e,
0x667442487b57fba3,0x667504bf41abec11,0x66754b241a6f9a66,0x6677272e43d24428,0x66783009e2e9e2eb,0x667bbc8fe751d1fc,0x667c6430233f7888,0x667df9d573de73f5,
0x667f4915ebb9c10d,0x668116fdda1a04c9,0x66815d62b2ddb31e,0x66816e1a76d4cdaf,0x6681be9e1607ab55,0x668303bfc773c91c,0x668442487b57fba3,0x6684a383de81f3da,
0x66854b241a6f9a66,0x6687272e43d24428,0x66883009e2e9e2eb,0x66895a5509efb6d0,0x668bbc8fe751d1fc,0x668c6430233f7888,0x668ef545cdc2edc7,0x66901b8d80358af7,
0x6691be9e1607ab55,0x6691f797a99834b9,0x6693544366a6a6c2,0x66944fb3c08b2094,0x669488ad541ba9f8,0x6694a383de81f3da,0x66954b241a6f9a66,0x66983009e2e9e2eb,
0x6699c5af3388de58,0x669b14efab642b70,0x669bbc8fe751d1fc,0x669c6430233f7888,0x669ef545cdc2edc7,0x669f1f2ddcbe576a,0x66a0ed15cb1e9b26,0x66a140e5e9156e6c,
0x66a1be9e1607ab55,0x66a44fb3c08b2094,0x66a4a383de81f3da,0x66a4cd6bed7d5d7d,0x66a54b241a6f9a66,0x66a83009e2e9e2eb,0x66ab14efab642b70,0x66abbc8fe751d1fc,
0x66ac6430233f7888,0x66aef545cdc2edc7,0x66af1f2ddcbe576a,0x66b140e5e9156e6c,0x66b1be9e1607ab55,0x66b3dfd068a48750,0x66b4cd6bed7d5d7d,0x66b4f753fc78c720,
0x66b54b241a6f9a66,0x66b83009e2e9e2eb,0x66b9e158dda025a2,0x66ba3528fb96f8e8,0x66bbbc8fe751d1fc,0x66bc6430233f7888,0x66bf1f2ddcbe576a,0x66c0ed15cb1e9b26,
0x66c140e5e9156e6c,0x66c258697ce9ae3c,0x66c29e64c5d4dddd,0x66c3dfd068a48750,0x66c4cd6bed7d5d7d,0x66c4f753fc78c720,0x66c5911f635aca07,0x66c67ebae833a034,
0x66c97f7f22b16f5d,0x66cb14efab642b70,0x66cbbc8fe751d1fc,0x66cf1f2ddcbe576a,0x66d0df0c2e26b827,0x66d0ed15cb1e9b26,0x66d140e5e9156e6c,0x66d29e64c5d4dddd,
0x66d3dfd068a48750,0x66d5911f635aca07,0x66d67ebae833a034,0x66d97f7f22b16f5d,0x66db14efab642b70,0x66ddcfb89cf6caf8,0x66de77733cda9131,0x66df1f2ddcbe576a,
0x66e061399d3e5b91,0x66e108f43d2221ca,0x66e140e5e9156e6c,0x66e163d65b8ff666,0x66e24a7a43e7eaea,0x66e3dfd068a48750,0x66e4f753fc78c720,0x66e5911f635aca07,
0x66e5f2f91e49804c,0x66e8d7c482cda924,0x66e97f7f22b16f5d,0x66ed43f6d30cab10,0x66ee77733cda9131,0x66f0147b7fbe89a1,0x66f025d95505adf1,0x66f061399d3e5b91,
0x66f06f433a363e90,0x66f0763ad6b72039,0x66f09945ad27c7e0,0x66f108f43d2221ca,0x66f163d65b8ff666,0x66f19bc807834308,0x66f24a7a43e7eaea,0x66f2c84cd4d04780,
0x66f3dfd068a48750,0x66f4f753fc78c720,0x66fd43f6d30cab10,0x66fe77733cda9131,0x66ffb5704364d9a6,0x6700095c8b3d693f,0x6700147b7fbe89a1,0x67001ad4c47aad3c,
0x670025d95505adf1,0x67003786562f3148,0x670061399d3e5b91,0x67006f433a363e90,0x67009945ad27c7e0,0x6700aad84a5b2b8a,0x67010585a0dcc0cc,0x670108f43d2221ca,
0x670118b5283cb548,0x670163d65b8ff666,0x670178393d43fd00,0x670256b22ec6fdbd,0x6702c84cd4d04780,0x6703dfd068a48750,0x6704f753fc78c720,0x670cd47d0afe9080,
0x670d3976365048bc,0x670fb5704364d9a6,0x6710209906a77cc7,0x671025d95505adf1,0x671046f8156765bf,0x6710a39181f7eada,0x67111374d9de841e,0x671118b5283cb548,
0x671163d65b8ff666,0x671256b22ec6fdbd,0x671394af35514632,0x6713dfd068a48750,0x6717265b242146c0,0x671ae30cc2e55861,0x671d3976365048bc,0x671d5f06cff9e94b,
0x671e5b7a66e0eae0,0x671fb5704364d9a6,0x672025d95505adf1,0x672118b5283cb548,0x672163d65b8ff666,0x67223121951d5d2e,0x672256b22ec6fdbd,0x672394af35514632,
0x6723dfd068a48750,0x6725eb18a8bc368d,0x67269cdf78d62b0f,0x672841821c2726e8,0x6729a50fbc5b0fec,0x672ae30cc2e55861,0x672d3976365048bc,0x672d5f06cff9e94b,
0x672f293a0cf485b3,0x67301bcd24cf7fa8,0x673025d95505adf1,0x673118b5283cb548,0x673163d65b8ff666,0x6731e60061ca1c10,0x67323121951d5d2e,0x6733dfd068a48750,
0x67353951d8a2420b,0x67355ee2724be29a,0x67369cdf78d62b0f,0x673841821c2726e8,0x673ae30cc2e55861,0x673ca333cfa9c680,0x673d062367ecef0a,0x673f293a0cf485b3,
0x67401bcd24cf7fa8,0x674025d95505adf1,0x67406e5a6129d67a,0x6740a62858fe0e2e,0x6740fa90979a2a6d,0x674100e6c34ccddc,0x674118b5283cb548,0x674163d65b8ff666,
0x674186c6ce0a7e60,0x6742c93efe05a4d7,0x67433bcbcd444bf1,0x6743dfd068a48750,0x674ca333cfa9c680,0x674d062367ecef0a,0x674f293a0cf485b3,0x6750a62858fe0e2e,
0x6750e56259d95b96,0x675118b5283cb548,0x675295ec2fa24b25,0x6752c93efe05a4d7,0x67533bcbcd444bf1,0x6758bff61dddc1b8,0x6758f93c857d1545,0x675b089d5c8ef8f0,
0x675b1c532a84abee,0x675d062367ecef0a,0x6760339b89bf6714,0x6760a62858fe0e2e,0x676118b5283cb548,0x6761385228aa5bfc,0x67628ff89666514a,0x6763222266129f18,
0x67633bcbcd444bf1,0x676440826c2f40d9,0x6765e13dc1c15d0e,0x6768bff61dddc1b8,0x6768f93c857d1545,0x676b1c532a84abee,0x676e3451ee406425,0x676e9d03d68431c0,
0x6770a62858fe0e2e,0x67728ff89666514a,0x6774ec55a30d3b80,0x6775a7f75a220981,0x6775e13dc1c15d0e,0x6778bff61dddc1b8,0x6778f93c857d1545,0x677a276b0bd08a60,
0x677b1c532a84abee,0x677e3451ee406425,0x67809659d8c73ad4,0x6780a62858fe0e2e,0x6781209c68581ef5,0x67823efc6e74c0b6,0x67824ecaeeab9410,0x67828ff89666514a,
0x6784927867908956,0x6784ec55a30d3b80,0x6785a7f75a220981,0x6785e13dc1c15d0e,0x6786d625e0757e9c,0x6788bff61dddc1b8,0x6788f93c857d1545,0x678a8a295ad85e20,
0x678e3451ee406425,0x678f8317487137dd,0x6790a62858fe0e2e,0x67910005947ac058,0x67924ecaeeab9410,0x679343b30d5fb59e,0x6794927867908956,0x6794ec55a30d3b80,
0x67950cec76ea9a1d,0x679539db14a8f332,0x6795e13dc1c15d0e,0x6798f93c857d1545,0x679c113b4938cd7c,0x679ce58c940f906d,0x679f8317487137dd,0x67a058a2e762567c,
0x67a10005947ac058,0x67a1f4edb32ee1e6,0x67a343b30d5fb59e,0x67a4927867908956,0x67a4e629be1cbe44,0x67a4ec55a30d3b80,0x67a539db14a8f332,0x67a5e13dc1c15d0e,
0x67aaef648cc652d9,0x67ace58c940f906d,0x67aedbb49b58ce01,0x67af8317487137dd,0x67b343b30d5fb59e,0x67b3eb15ba781f7a,0x67b4927867908956,0x67b4e629be1cbe44,
0x67b510026962d8bb,0x67b539db14a8f332,0x67bce58c940f906d,0x67bde0a097b42f37,0x67bedbb49b58ce01,0x67bf8317487137dd,0x67bfaceff3b75254,0x67bfd6c89efd6ccb,
0x67c43ec711045468,0x67c4927867908956,0x67c4e629be1cbe44,0x67c510026962d8bb,0x67c539db14a8f332,0x67ce5e2a99867e9c,0x67cedbb49b58ce01,0x67cf593e9d2b1d66,
0x67cfaceff3b75254,0x67cfd6c89efd6ccb,0x67d02a295067de18,0x67d3976463ebea8c,0x67d4e629be1cbe44,0x67d510026962d8bb,0x67d539db14a8f332,0x67d58d8c6b352820,
0x67d7c1b3f6c97dbf,0x67d87d3d7ce6e52f,0x67da1fb42da3edd5,0x67dcfb3e6650ad50,0x67dfaceff3b75254,0x67dfd6c89efd6ccb,0x67e02a295067de18,0x67e1a13c5ca2acf8,
0x67e1b6ee2ee3c9db,0x67e2dbdaddce831c,0x67e3d563e8370297,0x67e43ec711045468,0x67e4e629be1cbe44,0x67e58d8c6b352820,0x67e668db30162b3d,0x67e7c1b3f6c97dbf,
0x67ea1fb42da3edd5,0x67ecfb3e6650ad50,0x67ee54172d03ffd2,0x67efaceff3b75254,0x67f363784c23514b,0x67f3b729a2af8639,0x67f4e629be1cbe44,0x67f668db30162b3d,
0x67f74429f4f72e5a,0x67f7c1b3f6c97dbf,0x67fa1fb42da3edd5,0x67fa498cd8ea084c,0x67fcfb3e6650ad50,0x67fe54172d03ffd2,0x67ff058d469ee878,0x67ffaceff3b75254,
0x68002a295067de18,0x6800d695b3c18759,0x6801b1e478a28a76,0x6802c973634c1593,0x6803b729a2af8639,0x68058d8c6b352820,0x6805bc6eccbc81fc,0x680668db30162b3d,
0x680797db4b836348,0x6807c1b3f6c97dbf,0x680a498cd8ea084c,0x680cfb3e6650ad50,0x680e54172d03ffd2,0x680faceff3b75254,0x68121d06fff26c52,0x6812347830b61940,
0x6812c973634c1593,0x68147b0736ccdc68,0x6814992749b12068,0x6815bc6eccbc81fc,0x681668db30162b3d,0x68171547936fd47e,0x681cfb3e6650ad50,0x681e54172d03ffd2,
0x68202a295067de18,0x68204d53198d617d,0x6820d695b3c18759,0x6820f9bf7ce70abe,0x68211130adaab7ac,0x68221d06fff26c52,0x6822347830b61940,0x6822c973634c1593,
0x6824992749b12068,0x68258d8c6b352820,0x682cfb3e6650ad50,0x682d16070824a5c7,0x682e54172d03ffd2,0x682ee5baee89b09c,0x68304d53198d617d,0x6830b0ed9c243259,
0x6830f9bf7ce70abe,0x68321d06fff26c52,0x683375dfc6a5bed4,0x68340783882b6f9e,0x6834992749b12068,0x68385357b84f2e89,0x6839769f3b5a901d,0x6839bf711c1d6882,
0x683ab4af6039ea28,0x683cfb3e6650ad50,0x683d16070824a5c7,0x683ee5baee89b09c,0x684026d1df57928f,0x6840492285e49c06,0x68404d53198d617d,0x6840b0ed9c243259,
0x6840c42e393f19d0,0x6840cbb63df82ad0,0x68413e60ca011dac,0x684164e20436ec9a,0x6841d0711cd30b6d,0x68420602607afc5b,0x68421d06fff26c52,0x68425298439a5d40,
0x6843e1024df5a0b0,0x68440783882b6f9e,0x6844992749b12068,0x68486e205a232700,0x6849bf711c1d6882,0x684ab4af6039ea28,0x684cfb3e6650ad50,0x684d16070824a5c7,
0x684ea7c8839034c0,0x684fa92bf15ac9d4,0x685008453b271198,0x685036bb0b622e7d,0x6850492285e49c06,0x68504d53198d617d,0x68507f8cec2506e2,0x6850c3c1a7f2dcd9,
0x6850c42e393f19d0,0x6850cbb63df82ad0,0x6851d0711cd30b6d,0x68520602607afc5b,0x68521d06fff26c52,0x6852347830b61940,0x6854992749b12068,0x6854fadfcb19ad04,
0x68586e205a232700,0x685a21299d85f51e,0x685cb44e86bc192b,0x685cfb3e6650ad50,0x685ea7c8839034c0,0x685fa92bf15ac9d4,0x68604d53198d617d,0x68618b633e6cbb88,
0x68620602607afc5b,0x68621d06fff26c52,0x6863bccfa63a52f9,0x6864992749b12068,0x6864fadfcb19ad04,0x68678e04b44fd111,0x686a21299d85f51e,0x686cb44e86bc192b,
0x686cfb3e6650ad50,0x686f47736ff23d38,0x68718b633e6cbb88,0x68720602607afc5b,0x6873bccfa63a52f9,0x6874992749b12068,0x6874e271aabf89dd,0x6874fadfcb19ad04,
0x6877bee0f504175f,0x687a21299d85f51e,0x687cb44e86bc192b,0x687f47736ff23d38,0x687f784fb0a68386,0x687fa92bf15ac9d4,0x688005723961ab38,0x68820602607afc5b,
0x6882b10542f1f26c,0x6884992749b12068,0x6884e271aabf89dd,0x6884fadfcb19ad04,0x68855c984c8239a0,0x6887759693f5adea,0x6888cb6018bdd184,0x688a21299d85f51e,
0x688a3997bde01845,0x688cb44e86bc192b,0x688f47736ff23d38,0x6890f9833cc14236,0x68920602607afc5b,0x68938ca825f76643,0x6894992749b12068,0x6894e271aabf89dd,
0x6897759693f5adea,0x6898cb6018bdd184,0x689a21299d85f51e,0x689f47736ff23d38,0x68a0f9833cc14236,0x68a20602607afc5b,0x68a24f4cc18965d0,0x68a38ca825f76643,
0x68a4992749b12068,0x68a4e271aabf89dd,0x68a6e31ff1ebbf44,0x68a7759693f5adea,0x68a8cb6018bdd184,0x68a97644db21e351,0x68ab1549b0eefe3e,0x68af47736ff23d38,
0x68b0056329583916,0x68b036305a030d42,0x68b1d5352fd0282f,0x68b24f4cc18965d0,0x68b29888128e5d23,0x68b38ca825f76643,0x68b3bd7cdea6f380,0x68b4e271aabf89dd,
0x68b6076676d8203a,0x68b7759693f5adea,0x68b8cb6018bdd184,0x68b9f04d5cd1aed0,0x68bb1549b0eefe3e,0x68bd5f3349202af8,0x68bf47736ff23d38,0x68c0056329583916,
0x68c12a57f570cf73,0x68c24f4cc18965d0,0x68c29888128e5d23,0x68c38ca825f76643,0x68c3bd7cdea6f380,0x68c4378ce85b7810,0x68c6076676d8203a,0x68c7696347caf8df,
0x68c7759693f5adea,0x68c8cb6018bdd184,0x68c9457022725614,0x68cb1549b0eefe3e,0x68cd5f3349202af8,0x68cf47736ff23d38,0x68d1b09b4b50090e,0x68d25b800db41adb,
0x68d29888128e5d23,0x68d3bd7cdea6f380,0x68d4378ce85b7810,0x68d6076676d8203a,0x68d7696347caf8df,0x68d8acdc1650b060,0x68d8cb6018bdd184,0x68db1549b0eefe3e,
0x68dc58c27f74b5bf,0x68dd5f3349202af8,0x68dd9c3b4dfa6d40,0x68e0056329583916,0x68e06d227cca518d,0x68e0daff3a542112,0x68e12a57f570cf73,0x68e145cd42d21510,
0x68e1b09b4b50090e,0x68e24f4cc18965d0,0x68e25b800db41adb,0x68e3436cd4f26ef0,0x68e3bd7cdea6f380,0x68e4378ce85b7810,0x68e6076676d8203a,0x68e8acdc1650b060,
0x68ec58c27f74b5bf,0x68ed5f3349202af8,0x68eed0721b49942f,0x68f0056329583916,0x68f0085b4655e96a,0x68f009f574e7a5d8,0x68f0179d478c79fc,0x68f04579e33e56e5,
0x68f06d227cca518d,0x68f0daff3a542112,0x68f12a57f570cf73,0x68f145cd42d21510,0x68f15b2cae205cb0,0x68f1b09b4b50090e,0x68f20f3607a34801,0x68f24f4cc18965d0,
0x68f3436cd4f26ef0,0x68f3bd7cdea6f380,0x68f4378ce85b7810,0x68fe84026d212400,0x68fed0721b49942f,0x6900000875fca700,0x690000ba45baa121,0x6900049ac18c13c2,
0x6900056329583916,0x6900085b4655e96a,0x690009f574e7a5d8,0x6900703131d62d14,0x6900a7e15bdcdd74,0x6900daff3a542112,0x6901067c18301c67,0x69012a57f570cf73,
0x690145cd42d21510,0x69019cc6fe8a0bba,0x69020f3607a34801,0x6902492e3db30800,0x69024f4cc18965d0,0x6902c95ccb3dea60,0x6903436cd4f26ef0,0x6903bd7cdea6f380,
0x690e84026d212400,0x690ed0721b49942f,0x690f6e5e023ecbcb,0x691000ba45baa121,0x691002389fe22618,0x691007907ab5b800,0x6910085b4655e96a,0x691009f574e7a5d8,
0x6910293f0698ec22,0x691058eb686241a6,0x69105a13bf48795f,0x6910703131d62d14,0x69107093f9783fa7,0x6910a7e15bdcdd74,0x6910b7e8ec57932c,0x6910e11ca46bd820,
0x6911067c18301c67,0x6911d53cb7d4e140,0x6912c95ccb3dea60,0x6913bd7cdea6f380,0x69155f6b4e47a000,0x691e84026d212400,0x691f6e5e023ecbcb,0x691fbd53f5b96799,
0x692000ba45baa121,0x692003b500e65797,0x6920085b4655e96a,0x692008aa1417d6ec,0x692009f574e7a5d8,0x69200cd68a24d49e,0x6920293f0698ec22,0x69202cb08346da3c,
0x692031706ea4f3bf,0x69203579dac85a3e,0x692058eb686241a6,0x69206c64758ae578,0x69206d8ccc711d31,0x69207093f9783fa7,0x6921d53cb7d4e140,0x6923bd7cdea6f380,
0x6923d44cc5fd5400,0x692c0978d4617980,0x692e84026d212400,0x692fbd53f5b96799,0x692fd9f922059e00,0x692fe4ceef76b580,0x693000ba45baa121,0x693002a0342dee94,
0x693003b500e65797,0x6930085b4655e96a,0x693008aa1417d6ec,0x693009f574e7a5d8,0x69300cd68a24d49e,0x693013382c1963a0,0x693015d50979ba72,0x69302cb08346da3c,
0x69302e0e020077c7,0x693031706ea4f3bf,0x693097f7eb750c00,0x6933bd7cdea6f380,0x6933cd69db37f64f,0x6933d44cc5fd5400,0x69341c5fceb2921d,0x693443dac86fe004,
0x693838f886bd5500,0x693e84026d212400,0x693fd9f922059e00,0x693fe4ceef76b580,0x69400282141b0a50,0x694009f574e7a5d8,0x69400cd68a24d49e,0x69401a1011475568,
0x69401cc386b5d76d,0x694031706ea4f3bf,0x6943bd7cdea6f380,0x6943cd69db37f64f,0x6943f4e4d4f54436,0x69441c5fceb2921d,0x694443dac86fe004,0x69478dfd2c4b1800,
0x694e3e4d32ea821f,0x694e65c82ca7d006,0x694fd9f922059e00,0x695009f574e7a5d8,0x695031706ea4f3bf,0x695356f8ee000c9a,0x6953a5eee17aa868,0x6953bd7cdea6f380,
0x6953f4e4d4f54436,0x69541c5fceb2921d,0x695443dac86fe004,0x69592d5680ce8a1e,0x695d0275650012e7,0x695d78e65237fc9c,0x695def573f6fe651,0x695e3e4d32ea821f,
0x695e65c82ca7d006,0x69626a1713903930,0x6963a5eee17aa868,0x6963f4e4d4f54436,0x69641c5fceb2921d,0x696443dac86fe004,0x6966911daae1e72a,0x6967049cd874477c,
0x69688f6a99d95282,0x69692d5680ce8a1e,0x696954d17a8bd805,0x696def573f6fe651,0x696e16d2392d3438,0x69705985878ceb96,0x69712e3f45a5c9f8,0x69713131054b535b,
0x6971a7a1f2833d10,0x6972458dd97874ac,0x697354072e5a8337,0x6973a5eee17aa868,0x69741c5fceb2921d,0x697443dac86fe004,0x6974e1c6af6517a0,0x6976911daae1e72a,
0x69792d5680ce8a1e,0x697954d17a8bd805,0x697a7b72ebc4db98,0x697e16d2392d3438,0x69805985878ceb96,0x6980f7716e822332,0x69813131054b535b,0x6981a7a1f2833d10,
0x6982458dd97874ac,0x6982ce4363bc40a3,0x6983a5eee17aa868,0x69841c5fceb2921d,0x6984e1c6af6517a0,0x6986118a6f240c54,0x6986911daae1e72a,0x698886484b536161,
0x69892d5680ce8a1e,0x698a7b72ebc4db98,0x698c4922927907e8,0x698e16d2392d3438,0x699050633906fa75,0x69905985878ceb96,0x6990f7716e822332,0x69913131054b535b,
0x6991a7a1f2833d10,0x6992a6c869fef2bc,0x6992ce4363bc40a3,0x6993a5eee17aa868,0x6994e1c6af6517a0,0x6995c2947ba97086,0x6996118a6f240c54,0x699651540d02f9bf,
0x6996911daae1e72a,0x699886484b536161,0x6998de608d53ee50,0x699c4922927907e8,0x699e16d2392d3438,0x699e7e16d0c96f8a,0x69a05985878ceb96,0x69a1a7a1f2833d10,
0x69a1e76b90622a7b,0x69a2ce4363bc40a3,0x69a3dc9630d3a4b2,0x69a651540d02f9bf,0x69a6911daae1e72a,0x69a76bce2c2b2d90,0x69a7df3a15d838a4,0x69a886484b536161,
0x69ac4922927907e8,0x69ae16d2392d3438,0x69ae7e16d0c96f8a,0x69b05985878ceb96,0x69b1e76b90622a7b,0x69b3755199376960,0x69b536d9eddac5ee,0x69b76bce2c2b2d90,
0x69b7df3a15d838a4,0x69b852a5ff8543b8,0x69b886484b536161,0x69baf4f27e7a4e8d,0x69bc4922927907e8,0x69be7e16d0c96f8a,0x69c05985878ceb96,0x69c1467103ef699f,
0x69c1adb59b8ba4f1,0x69c28e79c5dd5338,0x69c29aa117ee22fa,0x69c2c82fbab3d8c2,0x69c519fef36f8329,0x69c536d9eddac5ee,0x69c543013feb95b0,0x69c732183754a806,
0x69c76bce2c2b2d90,0x69c886484b536161,0x69caf4f27e7a4e8d,0x69cc2c47980dc523,0x69cc4922927907e8,0x69ce7e16d0c96f8a,0x69d03caa8d21a8d1,0x69d190daa120622c,
0x69d1adb59b8ba4f1,0x69d22c852dea1d77,0x69d28e79c5dd5338,0x69d2c82fbab3d8c2,0x69d519fef36f8329,0x69d536d9eddac5ee,0x69d76bce2c2b2d90,0x69d80778b8f4e8db,
0x69daf4f27e7a4e8d,0x69dc2c47980dc523,0x69dc4922927907e8,0x69de7e16d0c96f8a,0x69e03caa8d21a8d1,0x69e11d6eb7735718,0x69e190daa120622c,0x69e22c852dea1d77,
0x69e28e79c5dd5338,0x69e2d39363654634,0x69e47e5466a5c7de,0x69e519fef36f8329,0x69e76bce2c2b2d90,0x69e80778b8f4e8db,0x69e97e359bb79bb4,0x69eaf4f27e7a4e8d,
0x69eb624abf1ef1c0,0x69f01a1dbe5daf53,0x69f0425c617a5f8a,0x69f11d6eb7735718,0x69f190daa120622c,0x69f3a34210acd050,0x69f690bbd6323602,0x69f76bce2c2b2d90,
0x69f80778b8f4e8db,0x69f97e359bb79bb4,0x69faf4f27e7a4e8d,0x69fb624abf1ef1c0,0x69fd74e319033878,0x6a001a1dbe5daf53,0x6a006afcd946c0e9,0x6a00933b7c637120,
0x6a0106a766107c34,0x6a013a62270a8627,0x6a0190daa120622c,0x6a019c6f3429a832,0x6a031ea834c9b4c7,0x6a03755199376960,0x6a03a34210acd050,0x6a04ac75c8730762,
0x6a0690bbd6323602,0x6a076bce2c2b2d90,0x6a097e359bb79bb4,0x6a0af4f27e7a4e8d,0x6a0b909d0b4409d8,0x6a0d74e319033878,0x6a100ea1a0805597,0x6a10145374d90c50,
0x6a101a1dbe5daf53,0x6a10933b7c637120,0x6a1106767bb8a3a0,0x6a113a62270a8627,0x6a1190daa120622c,0x6a131ea834c9b4c7,0x6a13a34210acd050,0x6a14ac75c8730762,
0x6a1709cd59a201aa,0x6a176bce2c2b2d90,0x6a188c1294d80464,0x6a197e359bb79bb4,0x6a1af4f27e7a4e8d,0x6a1b909d0b4409d8,0x6a1d695ac08fe897,0x6a1e4460dbf2ea00,
0x6a201a1dbe5daf53,0x6a212ed9ce973646,0x6a2190daa120622c,0x6a21e47413bee7c2,0x6a231ea834c9b4c7,0x6a2397b9b839806f,0x6a23a34210acd050,0x6a2709cd59a201aa,
0x6a276bce2c2b2d90,0x6a2782dedd11cd52,0x6a2844017aacceaf,0x6a297e359bb79bb4,0x6a2d695ac08fe897,0x6a2f592926c26718,0x6a3025a616d0ff34,0x6a31e47413bee7c2,
0x6a32d6971a9e7f12,0x6a331ea834c9b4c7,0x6a349565178c67a0,0x6a3587881e6bfef0,0x6a3709cd59a201aa,0x6a3844017aacceaf,0x6a397e359bb79bb4,0x6a39babe5d6f8188,
0x6a3ad6ae1d9e5ba3,0x6a4025a616d0ff34,0x6a409b1dc2462148,0x6a417e1e98b7bf23,0x6a41e47413bee7c2,0x6a4202b8749adaac,0x6a430063d3edc1dd,0x6a431ea834c9b4c7,
0x6a449565178c67a0,0x6a4587881e6bfef0,0x6a46cd4497ea1bd6,0x6a4844017aacceaf,0x6a497e359bb79bb4,0x6a498d57cc259529,0x6a4ad6ae1d9e5ba3,0x6a4e67061fe2cfc8,
0x6a509b1dc2462148,0x6a50b96223221432,0x6a513fc8eb028485,0x6a51e47413bee7c2,0x6a5202b8749adaac,0x6a531ea834c9b4c7,0x6a5458dc55d481cc,0x6a549565178c67a0,
0x6a56faab29340835,0x6a596f136b49a23f,0x6a597e359bb79bb4,0x6a598d57cc259529,0x6a5ad6ae1d9e5ba3,0x6a5ea38ee19ab59c,0x6a6014b6fa65b0f5,0x6a609b1dc2462148,
0x6a60b96223221432,0x6a613fc8eb028485,0x6a61e47413bee7c2,0x6a649565178c67a0,0x6a650ca9aefede7e,0x6a66faab29340835,0x6a68e8aca36931ec,0x6a698d57cc259529,
0x6a6ad6ae1d9e5ba3,0x6a6c10e23ea928a8,0x6a6db41f3cb71d7b,0x6a6ea38ee19ab59c,0x6a709b1dc2462148,0x6a7130a6ba948b10,0x6a713fc8eb028485,0x6a718a8d6729b969,
0x6a740e17d9ad4ce8,0x6a74c1e532d7a99a,0x6a750ca9aefede7e,0x6a7566905b940cd7,0x6a76eb88f8c60ec0,0x6a7779f413dcd100,0x6a798d57cc259529,0x6a7ba0bb846e5952,
0x6a7c10e23ea928a8,0x6a7db41f3cb71d7b,0x6a8093196f0fcf5b,0x6a809b1dc2462148,0x6a8130a6ba948b10,0x6a815d26d5dfcd0a,0x6a829f5f4a20ebfc,0x6a82ae817a8ee571,
0x6a86eb88f8c60ec0,0x6a8779f413dcd100,0x6a8941acd9ffb5e0,0x6a898d57cc259529,0x6a8ba0bb846e5952,0x6a8db41f3cb71d7b,0x6a8fc782f4ffe1a4,0x6a905059461eec64,
0x6a909b1dc2462148,0x6a91ac60b6a18017,0x6a92ae817a8ee571,0x6a93532ca34b48ae,0x6a95c07708293b30,0x6a95c23e7f772512,0x6a9779f413dcd100,0x6a9ba0bb846e5952,
0x6a9cfcc2f4f0ed05,0x6a9db41f3cb71d7b,0x6a9fc782f4ffe1a4,0x6aa09b1dc2462148,0x6aa19b770ee59cc0,0x6aa2ae817a8ee571,0x6aa2d2fffcfb8af2,0x6aa2f77e7f683073,
0x6aa5c23e7f772512,0x6aa6c297cc16a08a,0x6aa779f413dcd100,0x6aa7d5a237bfe93b,0x6aaba0bb846e5952,0x6aadb41f3cb71d7b,0x6aae58ca657380b8,0x6aafc782f4ffe1a4,
0x6ab09b1dc2462148,0x6ab19b770ee59cc0,0x6ab2ae817a8ee571,0x6ab2d2fffcfb8af2,0x6ab40a88eb117924,0x6ab44a9f3e395802,0x6ab48ab5916136e0,0x6ab5c23e7f772512,
0x6ab779f413dcd100,0x6ab7d5a237bfe93b,0x6ab90d2b25d5d76d,0x6abdb41f3cb71d7b,0x6abfc782f4ffe1a4,0x6ac023d7cda7cfb0,0x6ac19b770ee59cc0,0x6ac2d2fffcfb8af2,
0x6ac36ec47406820b,0x6ac38ecf9d9a717a,0x6ac44a9f3e395802,0x6ac5c23e7f772512,0x6ac779f413dcd100,0x6ac7d5a237bfe93b,0x6ac9e905f008ad64,0x6acc3c7ffb79506b,
0x6acdb41f3cb71d7b,0x6acfc782f4ffe1a4,0x6ad15b60bbbdbde2,0x6ad2d2fffcfb8af2,0x6ad38ecf9d9a717a,0x6ad3ecb76de9e4be,0x6ad44a9f3e395802,0x6ad7d5a237bfe93b,
0x6ada0911199c9cd3,0x6adc3c7ffb79506b,0x6addb41f3cb71d7b,0x6ade12070d0690bf,0x6ade6feedd560403,0x6adfc782f4ffe1a4,0x6ae217305c5ca46a,0x6ae2d2fffcfb8af2,
0x6ae330e7cd4afe36,0x6ae38ecf9d9a717a,0x6ae3ecb76de9e4be,0x6ae44a9f3e395802,0x6aeb22c88a8af69f,0x6aec3c7ffb79506b,0x6aecc95bb3f07d51,0x6aed56376c67aa37,
0x6aede31324ded71d,0x6aee12070d0690bf,0x6aee6feedd560403,0x6af00594c9f7b780,0x6af010445022e840,0x6af02166bb230d7c,0x6af023d7cda7cfb0,0x6af0259ff38ba6ef,
0x6af052cbb5cf8952,0x6af1226b00253c00,0x6af330e7cd4afe36,0x6af38ecf9d9a717a,0x6af3ecb76de9e4be,0x6af4043161fdc18f,0x6af41bab56119e60,0x6af779f413dcd100,
0x6afcc95bb3f07d51,0x6afd56376c67aa37,0x6afde31324ded71d,0x6afdfa8d18f2b3ee,0x6afe12070d0690bf,0x6afe2981011a6d90,0x6b000c5dd993f2df,0x6b0023d7cda7cfb0,
0x6b038ecf9d9a717a,0x6b03bdc385c22b1c,0x6b03ecb76de9e4be,0x6b04043161fdc18f,0x6b041bab56119e60,0x6b0779f413dcd100,0x6b08f3a2436e4c56,0x6b0d56376c67aa37,
0x6b0d9ca548a340aa,0x6b0de31324ded71d,0x6b0dfa8d18f2b3ee,0x6b0e2981011a6d90,0x6b1301f3e5234494,0x6b135fdbb572b7d8,0x6b13bdc385c22b1c,0x6b13ecb76de9e4be,
0x6b141bab56119e60,0x6b17c270de6c15b9,0x6b1837d2a2cf65ce,0x6b18ad346732b5e3,0x6b18f3a2436e4c56,0x6b1922962b9605f8,0x6b1b7717ae308022,0x6b1de31324ded71d,
0x6b1dfa8d18f2b3ee,0x6b20f3e03ec460dd,0x6b219835eb4f6a94,0x6b235fdbb572b7d8,0x6b23ecb76de9e4be,0x6b241bab56119e60,0x6b2658b2e4983bb9,0x6b28f3a2436e4c56,
0x6b2b7717ae308022,0x6b2cb8d263919a08,0x6b2dcb9930cafa4c,0x6b2de31324ded71d,0x6b2dfa8d18f2b3ee,0x6b304f8a92395726,0x6b30567b35ee50ae,0x6b3179cb5386943b,
0x6b319835eb4f6a94,0x6b32a40c14d3d150,0x6b341bab56119e60,0x6b36702cd8ac188a,0x6b38f3a2436e4c56,0x6b3b7717ae308022,0x6b3cb8d263919a08,0x6b3d59afbe4226fb,
0x6b3dfa8d18f2b3ee,0x6b4019a6065ca3fc,0x6b40567b35ee50ae,0x6b40a3096cf9541e,0x6b40f758909edda1,0x6b412c6cd3960440,0x6b441bab56119e60,0x6b462b7b255dc079,
0x6b4a355cf8cf663c,0x6b4b7717ae308022,0x6b4cb8d263919a08,0x6b4d59afbe4226fb,0x6b4dfa8d18f2b3ee,0x6b51c56daa89e5d4,0x6b529460d8eb8d38,0x6b53a805ba9b8cad,
0x6b558a9dcaad3386,0x6b562b7b255dc079,0x6b576d35dabeda5f,0x6b57b1e78e0d3270,0x6b5a355cf8cf663c,0x6b5cb8d263919a08,0x6b5dfa8d18f2b3ee,0x6b5f3c47ce53cdd4,
0x6b60559d2177b17d,0x6b611942600aba11,0x6b61c56daa89e5d4,0x6b61f3837e3b0045,0x6b629460d8eb8d38,0x6b62aafcb888cad8,0x6b64bbaa9c4b8c22,0x6b658a9dcaad3386,
0x6b66cc58800e4d6c,0x6b676d35dabeda5f,0x6b67b1e78e0d3270,0x6b684776f8ef2093,0x6b6bde91456153d4,0x6b6cb8d263919a08,0x6b6dfa8d18f2b3ee,0x6b6f3c47ce53cdd4,
0x6b7032d53d9535dc,0x6b704a4f31a912ad,0x6b70dfde9c8b00d0,0x6b710d165bc57c10,0x6b711942600aba11,0x6b71bfc6b2a2966c,0x6b71c56daa89e5d4,0x6b71f3837e3b0045,
0x6b729460d8eb8d38,0x6b72fbda701c60ea,0x6b7448e3154c19a0,0x6b758a9dcaad3386,0x6b76cc58800e4d6c,0x6b7739790f267086,0x6b77b1e78e0d3270,0x6b784776f8ef2093,
0x6b7b4823c608c680,0x6b7bde91456153d4,0x6b7cb8d263919a08,0x6b7cec8f2f2a03e1,0x6b8032d53d9535dc,0x6b8041d4bdce1b91,0x6b80567b35ee50ae,0x6b807b38814dd4d2,
0x6b809ff5ccad58f6,0x6b80dfde9c8b00d0,0x6b80f758909edda1,0x6b81bfc6b2a2966c,0x6b81eddc8653b0dd,0x6b81f3837e3b0045,0x6b829460d8eb8d38,0x6b841bab56119e60,
0x6b8448e3154c19a0,0x6b858a9dcaad3386,0x6b8739790f267086,0x6b8b4823c608c680,0x6b8cb8d263919a08,0x6b8cec8f2f2a03e1,0x6b8f3f1b4a477588,0x6b9032d53d9535dc,
0x6b9041d4bdce1b91,0x6b90567b35ee50ae,0x6b90696585214769,0x6b907b38814dd4d2,0x6b90d490acbc6200,0x6b90dfde9c8b00d0,0x6b90e2b2187ea884,0x6b90f758909edda1,
0x6b91abfe4ef90080,0x6b91bfc6b2a2966c,0x6b91eddc8653b0dd,0x6b9292f71af1b95e,0x6b929460d8eb8d38,0x6b941bab56119e60,0x6b9448e3154c19a0,0x6b9aedb44793d000,
0x6b9b045027310da0,0x6b9b4823c608c680,0x6b9f3f1b4a477588,0x6b9fe16262f1d655,0x6ba032d53d9535dc,0x6ba041d4bdce1b91,0x6ba068d9db9e12c0,0x6ba0696585214769,
0x6ba07b38814dd4d2,0x6ba0d490acbc6200,0x6ba0dfde9c8b00d0,0x6ba0e2b2187ea884,0x6ba11d7f99f8359f,0x6ba1eddc8653b0dd,0x6ba292f71af1b95e,0x6ba29460d8eb8d38,
0x6ba36c835a2515a5,0x6ba448e3154c19a0,0x6ba8119b905ff8f3,0x6baa6427ab7d6a9a,0x6baaedb44793d000,0x6bab045027310da0,0x6bab4823c608c680,0x6bafe16262f1d655,
0x6bb00a8f97452017,0x6bb041d4bdce1b91,0x6bb042899ccb057e,0x6bb0e2b2187ea884,0x6bb1bcf336aeeeb8,0x6bb29460d8eb8d38,0x6bb36c835a2515a5,0x6bb5bf0f7542874c,
0x6bb7a6999e3e93a0,0x6bb8119b905ff8f3,0x6bba6427ab7d6a9a,0x6bbb045027310da0,0x6bc041d4bdce1b91,0x6bc119f73f07a3fe,0x6bc16ac05bde5f6e,0x6bc29460d8eb8d38,
0x6bc2af4e8d332108,0x6bc30017aa09dc78,0x6bc5bf0f7542874c,0x6bc746efe94a3a6e,0x6bc8119b905ff8f3,0x6bc8e9be11998160,0x6bc95574e2b7d0a0,0x6bc9a6f2de8b75fd,
0x6bca6427ab7d6a9a,0x6bcf093fe1b84de8,0x6bcfd3eb88ce0c6d,0x6bd041d4bdce1b91,0x6bd04f4b97f1e579,0x6bd0d6a4fc54b276,0x6bd25e85705c6598,0x6bd29460d8eb8d38,
0x6bd2af4e8d332108,0x6bd5bf0f7542874c,0x6bd5cc864f665134,0x6bd682ffaf4660dd,0x6bd746efe94a3a6e,0x6bd87e07407b3220,0x6bd8e9be11998160,0x6bda6427ab7d6a9a,
0x6bdf093fe1b84de8,0x6bdfd3eb88ce0c6d,0x6be041d4bdce1b91,0x6be04f4b97f1e579,0x6be1da89c2828b15,0x6be29460d8eb8d38,0x6be2a1d7b30f5720,0x6be365c7ed1330b1,
0x6be5bf0f7542874c,0x6be682ffaf4660dd,0x6be746efe94a3a6e,0x6bea6427ab7d6a9a,0x6bebf2c38c9702b0,0x6bef093fe1b84de8,0x6bef0c9d98414062,0x6bf041d4bdce1b91,
0x6bf1133bd1f5bf0a,0x6bf1da89c2828b15,0x6bf29460d8eb8d38,0x6bf2a1d7b30f5720,0x6bf365c7ed1330b1,0x6bf746efe94a3a6e,0x6bf74a4d9fd32ce8,0x6bf99cd9baf09e8f,
0x6bfa6427ab7d6a9a,0x6bff093fe1b84de8,0x6bff0c9d98414062,0x6c004d9cbcad6c3c,0x6c00b06c475195a3,0x6c010e2f40285353,0x6c01da89c2828b15,0x6c029b1c45fd722c,
0x6c02a1d7b30f5720,0x6c05bbb1beb994d2,0x6c08ced05d51ed90,0x6c0a6427ab7d6a9a,0x6c0f0c9d98414062,0x6c10183e52420c44,0x6c101b5d89b91aea,0x6c104d9cbcad6c3c,
0x6c105964bb8cbce7,0x6c107cbcb82aaee8,0x6c10b06c475195a3,0x6c1120b2ac1988f2,0x6c1177ba37de61ae,0x6c12a1d7b30f5720,0x6c18e9be11998160,0x6c191f997a28a900,
0x6c1a6427ab7d6a9a,0x6c1cb862a1df557e,0x6c1de2801d104af0,0x6c1f0c9d98414062,0x6c20183e52420c44,0x6c201b5d89b91aea,0x6c20360cbeeecae6,0x6c204a7d85365d96,
0x6c204d9cbcad6c3c,0x6c2098dc4992f44d,0x6c20b06c475195a3,0x6c20e2ab7a45e6f5,0x6c22a1d7b30f5720,0x6c24aab3dd02c809,0x6c28290c4e95a85f,0x6c28b3e2a90a59c0,
0x6c28be1b0c2e2318,0x6c291f997a28a900,0x6c2b8e4526ae600c,0x6c2de2801d104af0,0x6c2f0c9d98414062,0x6c301b5d89b91aea,0x6c301e7cc1302990,0x6c304d9cbcad6c3c,
0x6c30682cb25a2a4e,0x6c3075c2cc06e620,0x6c30e2ab7a45e6f5,0x6c30f1b1f0253830,0x6c31457b04ea105c,0x6c326bfc4a802f80,0x6c32a1d7b30f5720,0x6c34aab3dd02c809,
0x6c3596d9c6249473,0x6c3669e015cc3834,0x6c38290c4e95a85f,0x6c38be1b0c2e2318,0x6c3b8e4526ae600c,0x6c3c7a6b0fd02c76,0x6c3de2801d104af0,0x6c3efbc907948400,
0x6c401b5d89b91aea,0x6c404d9cbcad6c3c,0x6c40e2ab7a45e6f5,0x6c41457b04ea105c,0x6c41ff61bb178b74,0x6c428e9449229a52,0x6c42a1d7b30f5720,0x6c42ad90122a2ed6,
0x6c42eb87a43957de,0x6c44919443889f60,0x6c4596d9c6249473,0x6c4612c8ea42e683,0x6c4669e015cc3834,0x6c48290c4e95a85f,0x6c48be1b0c2e2318,0x6c493a0a304c7528,
0x6c4c7a6b0fd02c76,0x6c4de2801d104af0,0x6c4e589311a13125,0x6c501b5d89b91aea,0x6c502cf218615e7b,0x6c50cf6810592a27,0x6c50e0fc9f016db8,0x6c51267f3be27bd8,
0x6c51457b04ea105c,0x6c528e9449229a52,0x6c52ad90122a2ed6,0x6c533320eb3edf4d,0x6c5399b5fb4bfb40,0x6c5596d9c6249473,0x6c568150d401e7a0,0x6c58290c4e95a85f,
0x6c58be1b0c2e2318,0x6c5b40cfb01b6cc2,0x6c5de2801d104af0,0x6c5e589311a13125,0x6c601b5d89b91aea,0x6c60cf6810592a27,0x6c628e9449229a52,0x6c62ad90122a2ed6,
0x6c633320eb3edf4d,0x6c63d7ad8d5b2448,0x6c65a657aaa85eb5,0x6c65ae169cea43d6,0x6c68290c4e95a85f,0x6c68be1b0c2e2318,0x6c68cd98f0b1ed5a,0x6c6b40cfb01b6cc2,
0x6c6de2801d104af0,0x6c701b5d89b91aea,0x6c70519629865ed1,0x6c70b82b39937ac4,0x6c715cb7dbafbfbf,0x6c7192f07b7d03a6,0x6c728e9449229a52,0x6c73d7ad8d5b2448,
0x6c7415a51f6a4d50,0x6c751148ed0fe3fc,0x6c75a657aaa85eb5,0x6c75ae169cea43d6,0x6c764ae44cc4a3b0,0x6c78290c4e95a85f,0x6c7877732682d84c,0x6c78be1b0c2e2318,
0x6c7a559b2853dcfb,0x6c7b40cfb01b6cc2,0x6c801b5d89b91aea,0x6c80b82b39937ac4,0x6c80cf6810592a27,0x6c815cb7dbafbfbf,0x6c82ad90122a2ed6,0x6c838187c32c0f3a,
0x6c83d7ad8d5b2448,0x6c851148ed0fe3fc,0x6c85ae169cea43d6,0x6c864ae44cc4a3b0,0x6c8712c4e1b68e11,0x6c88290c4e95a85f,0x6c8877732682d84c,0x6c8a559b2853dcfb,
0x6c8de2801d104af0,0x6c901b5d89b91aea,0x6c90222b1aa0c368,0x6c904e2f61128a92,0x6c909ba4d7a57ddc,0x6c90b82b39937ac4,0x6c90f4e81815d7fe,0x6c916476cdf1a4e0,
0x6c921cd97e5fc4ff,0x6c92e4ba1351af60,0x6c95ae169cea43d6,0x6c964ae44cc4a3b0,0x6c9712c4e1b68e11,0x6c98290c4e95a85f,0x6c9bcbf3668af9e9,0x6c9c57171cfa8710,
0x6c9e5e6f412e9d00,0x6ca0f4e81815d7fe,0x6ca16e61d51a9272,0x6ca259965ce22239,0x6ca2e4ba1351af60,0x6ca3517f5a800dea,0x6ca35e33d05669d4,0x6ca5ae169cea43d6,
0x6ca79de898261b38,0x6ca877732682d84c,0x6cabcbf3668af9e9,0x6cae288aa8f52fd5,0x6caefd1fb3bd7620,0x6cb08822d0e77974,0x6cb0f4e81815d7fe,0x6cb259965ce22239,
0x6cb2c65ba41080c3,0x6cb2e4ba1351af60,0x6cb3517f5a800dea,0x6cb5ae169cea43d6,0x6cb5e4794081731b,0x6cb687a12b4700ea,0x6cb877732682d84c,0x6cb96f5c2420c3fd,
0x6cbcfa3f07c014df,0x6cbd30a1ab574424,0x6cbe0a2c39b40138,0x6cbe288aa8f52fd5,0x6cc07678d77ca6c1,0x6cc08822d0e77974,0x6cc0a18bbc943148,0x6cc0f4e81815d7fe,
0x6cc16312169aedb4,0x6cc16e61d51a9272,0x6cc1b66e721c946a,0x6cc2e4ba1351af60,0x6cc3517f5a800dea,0x6cc5e4794081731b,0x6cc830cb40d78d80,0x6cc96f5c2420c3fd,
0x6cccfa3f07c014df,0x6ccd30a1ab574424,0x6ccd9164d85aa25a,0x6cce288aa8f52fd5,0x6ccefd1fb3bd7620,0x6cd0254890e2087c,0x6cd040c88f90d312,0x6cd05bab347937c1,
0x6cd08822d0e77974,0x6cd0a18bbc943148,0x6cd0f4e81815d7fe,0x6cd11f48a18206ef,0x6cd22333b94af2f4,0x6cd2e4ba1351af60,0x6cd3517f5a800dea,0x6cd830cb40d78d80,
0x6cd87172196d5822,0x6cd96f5c2420c3fd,0x6cdb3151cb97a280,0x6cdb34cd95f06c6e,0x6cdcfa3f07c014df,0x6cdd9164d85aa25a,0x6ce0c486819428e3,0x6ce22333b94af2f4,
0x6ce3517f5a800dea,0x6ce3b8439498ec4a,0x6ce41f07ceb1caaa,0x6ce47fcafbb528e0,0x6ce5e178b9f6b306,0x6ce6ac00a79dafb1,0x6ce7a9eab2511b8c,0x6ce87172196d5822,
0x6ce99fbdbaa27318,0x6cead40a68ed0e38,0x6cecfa3f07c014df,0x6ced9164d85aa25a,0x6cef8d38edc17a10,0x6cf1efd19c3e83c4,0x6cf22333b94af2f4,0x6cf3517f5a800dea,
0x6cf47fcafbb528e0,0x6cf54a52e95c258b,0x6cf5e178b9f6b306,0x6cf6ac00a79dafb1,0x6cf7297569b20594,0x6cf87172196d5822,0x6cfc631937258764,0x6cfcfa3f07c014df,
0x6d009424eb1279c8,0x6d00a7d4ec833136,0x6d00c185fb0968ce,0x6d0144fbca333edb,0x6d01efd19c3e83c4,0x6d03517f5a800dea,0x6d047fcafbb528e0,0x6d04997c0a3b6078,
0x6d05e178b9f6b306,0x6d061adbe418a260,0x6d07297569b20594,0x6d07cd73c18faedb,0x6d087172196d5822,0x6d092248f88e1d35,0x6d0cfa3f07c014df,0x6d0ee63a0f5910b4,
0x6d1003d694a587ef,0x6d10350e983f5282,0x6d108822d0e77974,0x6d10a7d4ec833136,0x6d10bf5be196c431,0x6d111f48a18206ef,0x6d1149a92aee35e0,0x6d115f180f45842f,
0x6d120982aac4bb5c,0x6d12e4ba1351af60,0x6d147fcafbb528e0,0x6d14997c0a3b6078,0x6d15e178b9f6b306,0x6d168be35575ea33,0x6d17297569b20594,0x6d17cd73c18faedb,
0x6d1d97d11bfc3040,0x6d1ee63a0f5910b4,0x6d2000d60e1ac7da,0x6d2003d694a587ef,0x6d2013e53db96aae,0x6d208822d0e77974,0x6d209e682256e33b,0x6d20a7d4ec833136,
0x6d211f48a18206ef,0x6d215f180f45842f,0x6d220982aac4bb5c,0x6d22e4ba1351af60,0x6d234b1316de8004,0x6d23b24287836c20,0x6d247fcafbb528e0,0x6d24997c0a3b6078,
0x6d268be35575ea33,0x6d27297569b20594,0x6d29b96ec928aab0,0x6d29bfdb0cca3896,0x6d2a60a342d71aea,0x6d2d97d11bfc3040,0x6d3003d694a587ef,0x6d3013e53db96aae,
0x6d30a7d4ec833136,0x6d30d194a41d4b8d,0x6d315f180f45842f,0x6d3168ba74b7d908,0x6d32064c88f3f469,0x6d321cc775a9650e,0x6d334b1316de8004,0x6d3357eb9e219bd0,
0x6d347fcafbb528e0,0x6d34997c0a3b6078,0x6d34b32d18c19810,0x6d37297569b20594,0x6d38c50c5644903f,0x6d39b96ec928aab0,0x6d3a60a342d71aea,0x6d3e8f69b0b111a4,
0x6d3ef312969c2c80,0x6d40bb19b767dae8,0x6d415f180f45842f,0x6d42064c88f3f469,0x6d42faaefbd80eda,0x6d44997c0a3b6078,0x6d44e9e02541d1a2,0x6d47297569b20594,
0x6d48c50c5644903f,0x6d4a60a342d71aea,0x6d4c780679c41647,0x6d4e8f69b0b111a4,0x6d5013e53db96aae,0x6d50bb19b767dae8,0x6d512131ea184bd6,0x6d515f180f45842f,
0x6d51af7c2a4bf559,0x6d527ee2b17d9e28,0x6d52d27cee54d645,0x6d52faaefbd80eda,0x6d5631dcd4fd2430,0x6d57297569b20594,0x6d58c50c5644903f,0x6d59b96ec928aab0,
0x6d5c780679c41647,0x6d5d97d11bfc3040,0x6d5e8f69b0b111a4,0x6d60347361386a54,0x6d60a5659fbddb24,0x6d612131ea184bd6,0x6d615f180f45842f,0x6d627ee2b17d9e28,
0x6d62faaefbd80eda,0x6d63b4616b5fb7e5,0x6d66eb8f4484cd3b,0x6d67297569b20594,0x6d67a541b40c7646,0x6d68c50c5644903f,0x6d69b1cadf2471c1,0x6d6c780679c41647,
0x6d6d97d11bfc3040,0x6d6e8f69b0b111a4,0x6d6f87024565f308,0x6d70347361386a54,0x6d70a5659fbddb24,0x6d70aad2a5a85b15,0x6d712131ea184bd6,0x6d715f180f45842f,
0x6d719224289dbca6,0x6d742553a9e528b5,0x6d76eb8f4484cd3b,0x6d77297569b20594,0x6d78c50c5644903f,0x6d79b1cadf2471c1,0x6d7adc6f8d318b9c,0x6d7d97d11bfc3040,
0x6d7e8f69b0b111a4,0x6d802f065b4dea63,0x6d80347361386a54,0x6d80a5659fbddb24,0x6d80aad2a5a85b15,0x6d844190398684e9,0x6d8588717734faf8,0x6d86eb8f4484cd3b,
0x6d884ead11d49f7e,0x6d88c50c5644903f,0x6d8cb5ec9ef14ea0,0x6d8cd2292e92aad4,0x6d8d97d11bfc3040,0x6d8e8f69b0b111a4,0x6d902f065b4dea63,0x6d90323c7d1eb156,
0x6d90347361386a54,0x6d908c5f31ed45e3,0x6d90a5659fbddb24,0x6d91f1b3e356d124,0x6d9276316f976fff,0x6d92c235dc955672,0x6d944190398684e9,0x6d94b7ef7df675aa,
0x6d9588717734faf8,0x6d95e2942c038f85,0x6d96834e47e58a94,0x6d9688ad33a52340,0x6d9902f27b71c898,0x6d9cb5ec9ef14ea0,0x6d9cd2292e92aad4,0x6d9d97d11bfc3040,
0x6d9f13e73cf1b07f,0x6da026551967bc3a,0x6da0347361386a54,0x6da1f1b3e356d124,0x6da20df072f82d58,0x6da276316f976fff,0x6da44190398684e9,0x6da44fae81573303,
0x6da4b7ef7df675aa,0x6da6834e47e58a94,0x6dacb5ec9ef14ea0,0x6dacd2292e92aad4,0x6dadb7d8938a3549,0x6daf13e73cf1b07f,0x6db0347361386a54,0x6db050aff0d9c688,
0x6db1acbe9a4141be,0x6db276316f976fff,0x6db2ec90b40760c0,0x6db44190398684e9,0x6db59d9ee2ee001f,0x6db5c0ea9677b360,0x6db613fe275df0e0,0x6db6834e47e58a94,
0x6db817050190d2a4,0x6db93b6b9ab48100,0x6db9aabbbb3c1ab4,0x6dbcd2292e92aad4,0x6dbdb7d8938a3549,0x6dc0347361386a54,0x6dc0e27ab5ec27ef,0x6dc151cad673c1a3,
0x6dc276316f976fff,0x6dc3400ccc6d1407,0x6dc3cb30f5169428,0x6dc44190398684e9,0x6dc6834e47e58a94,0x6dc817050190d2a4,0x6dc9aabbbb3c1ab4,0x6dcdb7d8938a3549,
0x6dd0347361386a54,0x6dd08efe9d8674a8,0x6dd0e27ab5ec27ef,0x6dd158d9fa5c18b0,0x6dd21143c12c9dfb,0x6dd3400ccc6d1407,0x6dd35be0d48efa74,0x6dd44190398684e9,
0x6dd6834e47e58a94,0x6dd817050190d2a4,0x6dd832d909b2b911,0x6dd93b6b9ab48100,0x6dd9aabbbb3c1ab4,0x6dddb7d8938a3549,0x6de017bf37ded5ee,0x6de02a10ef1ba2a4,
0x6de04504d605db18,0x6de08efe9d8674a8,0x6de0e27ab5ec27ef,0x6de179df3b8c62f5,0x6de21143c12c9dfb,0x6de35be0d48efa74,0x6de4ef978e3a4284,0x6de6834e47e58a94,
0x6de6a2cf13829500,0x6de74d29a4bb2e9c,0x6de817050190d2a4,0x6de832d909b2b911,0x6de93b6b9ab48100,0x6dea2b7d71c8d325,0x6dedb7d8938a3549,0x6dedea4f6abf9e4b,
0x6df01694b3993704,0x6df02a10ef1ba2a4,0x6df03268bbbb1d71,0x6df04b16304bece9,0x6df05c87c6510ba6,0x6df0e27ab5ec27ef,0x6df179df3b8c62f5,0x6df1f8085591e97a,
0x6df21143c12c9dfb,0x6df5b972eb0fe68c,0x6df6834e47e58a94,0x6df74d29a4bb2e9c,0x6df7fdc995f61e23,0x6df817050190d2a4,0x6df93b6b9ab48100,0x6dfbd40821e66d00,
0x6dfdea4f6abf9e4b,0x6dfe038ad65a52cc,0x6e012e2cf8bc4572,0x6e0179df3b8c62f5,0x6e01c5917e5c8078,0x6e01f8085591e97a,0x6e021143c12c9dfb,0x6e050786ab915e0f,
0x6e06e83bf6505c98,0x6e074d29a4bb2e9c,0x6e07b217532600a0,0x6e07fdc995f61e23,0x6e0817050190d2a4,0x6e0af40c805ade37,0x6e0e038ad65a52cc,0x6e1096c8731c0a6c,
0x6e11c5917e5c8078,0x6e11f8085591e97a,0x6e121143c12c9dfb,0x6e125cf603fcbb7e,0x6e135a94864b617e,0x6e14bbd468c1408c,0x6e150786ab915e0f,0x6e156c7459fc3013,
0x6e161e60997ab890,0x6e1682a820c3be19,0x6e17b217532600a0,0x6e1817050190d2a4,0x6e187bf2affba4a8,0x6e1af40c805ade37,0x6e1c88696127f2c2,0x6e1e038ad65a52cc,
0x6e204a70092a206e,0x6e20b0aa05d88b68,0x6e21c5917e5c8078,0x6e21f954a3d58270,0x6e221143c12c9dfb,0x6e222a7f2cc7527c,0x6e225cf603fcbb7e,0x6e2449f5f0f82e0a,
0x6e248aa9dfcf7080,0x6e256c7459fc3013,0x6e2682a820c3be19,0x6e26b51ef7f9271b,0x6e27b217532600a0,0x6e2817050190d2a4,0x6e287bf2affba4a8,0x6e2b0d47ebf592b8,
0x6e2c88696127f2c2,0x6e2d45fa1bc122c7,0x6e2e038ad65a52cc,0x6e304a70092a206e,0x6e304d08a5b1525a,0x6e307ce6e05f8970,0x6e30d8228915195d,0x6e310800c3c35073,
0x6e31633c6c78e060,0x6e321143c12c9dfb,0x6e3449f5f0f82e0a,0x6e349c2098776bcc,0x6e3520c2172c1290,0x6e3682a820c3be19,0x6e37b217532600a0,0x6e3817050190d2a4,
0x6e39e4511e427070,0x6e3a68f29cf71734,0x6e3b0d47ebf592b8,0x6e3d45fa1bc122c7,0x6e3e038ad65a52cc,0x6e404a70092a206e,0x6e407ce6e05f8970,0x6e40e84cf3797bb3,
0x6e410800c3c35073,0x6e411ac3caaee4b5,0x6e427ca9d446903e,0x6e43014b52fb3702,0x6e4449f5f0f82e0a,0x6e44730b44b7cceb,0x6e449c2098776bcc,0x6e4520c2172c1290,
0x6e4682a820c3be19,0x6e47b217532600a0,0x6e49e4511e427070,0x6e4b0d47ebf592b8,0x6e4bf3edfa4e619e,0x6e4e038ad65a52cc,0x6e4e687884c524d0,0x6e5053d18c9fea8f,
0x6e507ce6e05f8970,0x6e50e84cf3797bb3,0x6e528c83bc6b7a9e,0x6e5449f5f0f82e0a,0x6e54730b44b7cceb,0x6e55c517662a8e14,0x6e5682a820c3be19,0x6e59e4511e427070,
0x6e5b0d47ebf592b8,0x6e5bf3edfa4e619e,0x6e5e038ad65a52cc,0x6e6053d18c9fea8f,0x6e607ce6e05f8970,0x6e6184b54e658207,0x6e61a5ddae12abb8,0x6e636b3cd6b1d454,
0x6e64730b44b7cceb,0x6e65c517662a8e14,0x6e660f55199756a6,0x6e6682a820c3be19,0x6e69e4511e427070,0x6e6bf3edfa4e619e,0x6e6e038ad65a52cc,0x6e6f30781e16afac,
0x6e702eb2b2e98646,0x6e7074f9ec4d1440,0x6e71a1e734097120,0x6e71a5ddae12abb8,0x6e72ced47bc5ce00,0x6e736b3cd6b1d454,0x6e73da9963d5012f,0x6e757ad9b2bdc582,
0x6e7682a820c3be19,0x6e79e4511e427070,0x6e7bf3edfa4e619e,0x6e7d92330c3288a5,0x6e7e038ad65a52cc,0x6e7f30781e16afac,0x6e802eb2b2e98646,0x6e807ce6e05f8970,
0x6e8184b54e658207,0x6e81ccf7c4cdad4d,0x6e857ad9b2bdc582,0x6e85c61504acdcba,0x6e88b763d6861390,0x6e89e4511e427070,0x6e8bf3edfa4e619e,0x6e8d92330c3288a5,
0x6e8f30781e16afac,0x6e91a7d8eb174904,0x6e92898ae0e48eac,0x6e949927bcf07fda,0x6e95c61504acdcba,0x6e97645a169103c1,0x6e978a768ec9b6b0,0x6e98b763d6861390,
0x6e9bf3edfa4e619e,0x6e9d92330c3288a5,0x6e9f30781e16afac,0x6ea02eb2b2e98646,0x6ea02f31822aad99,0x6ea1a7d8eb174904,0x6ea1ccf7c4cdad4d,0x6ea2898ae0e48eac,
0x6ea2d4c632d3a5e4,0x6ea43a9ec7447b81,0x6ea5a0775bb5511e,0x6ea5c61504acdcba,0x6ea7645a169103c1,0x6ea789f7bf888f5d,0x6ea78a768ec9b6b0,0x6ea8b763d6861390,
0x6ea9e4511e427070,0x6ead92330c3288a5,0x6eaf1da9499ae9de,0x6eaf30781e16afac,0x6eb0fe14a37c2d73,0x6eb2898ae0e48eac,0x6eb2af2889dc1a48,0x6eb2c1f75e57e016,
0x6eb43a9ec7447b81,0x6eb5c61504acdcba,0x6eb7645a169103c1,0x6eb8b763d6861390,0x6eb9029f28752ac8,0x6eba71df2723e34c,0x6ebc06bcceca276c,0x6ebf1da9499ae9de,
0x6ebf30781e16afac,0x6ec165863424ed60,0x6ec2a5c11f9e3761,0x6ec2af2889dc1a48,0x6ec2fa63dbcb3180,0x6ec5c61504acdcba,0x6ec75af2ac5320da,0x6ec8dd017f7d9f2c,
0x6ec94dda7a644200,0x6eca71df2723e34c,0x6eccc7c4385f6695,0x6ecf1da9499ae9de,0x6ed0594378a096ff,0x6ed0fe14a37c2d73,0x6ed11a4ae235d628,0x6ed2898ae0e48eac,
0x6ed2af2889dc1a48,0x6ed5c61504acdcba,0x6ed62b4c6e966dc2,0x6ed8b763d6861390,0x6ed9a7705350c13c,0x6eda71df2723e34c,0x6edcc7c4385f6695,0x6edf1da9499ae9de,
0x6ee0594378a096ff,0x6ee11a4ae235d628,0x6ee1761ae1e18449,0x6ee1b21e01142fb4,0x6ee2af2889dc1a48,0x6ee366c88933768a,0x6ee3d5675d5aea79,0x6ee560dd9ac34bb2,
0x6ee62b4c6e966dc2,0x6ee84e95cadd2887,0x6eea71df2723e34c,0x6eecc7c4385f6695,0x6eef0ada751f2410,0x6ef0594378a096ff,0x6ef1b21e01142fb4,0x6ef1e4b9b608f838,
0x6ef2af2889dc1a48,0x6ef3d5675d5aea79,0x6ef62b4c6e966dc2,0x6ef65de8238b3646,0x6ef84e95cadd2887,0x6efa71df2723e34c,0x6efa8b2d019e478e,0x6f011a4ae235d628,
0x6f017f824c1f6730,0x6f01b21e01142fb4,0x6f01e4b9b608f838,0x6f033d943e7c90ed,0x6f03d5675d5aea79,0x6f042150ecca173f,0x6f05df62df2740fc,0x6f061ea581593ba1,
0x6f084e95cadd2887,0x6f0a71df2723e34c,0x6f0a8b2d019e478e,0x6f0cbb1d4b223474,0x6f100344417371c4,0x6f100feb2eb0a3e5,0x6f10b513784c4520,0x6f111a4ae235d628,
0x6f117f824c1f6730,0x6f11b21e01142fb4,0x6f11e4b9b608f838,0x6f12ca1625d62627,0x6f12cbb5e755cdc4,0x6f133d943e7c90ed,0x6f13af7295a35416,0x6f13e20e4a981c9a,
0x6f142150ecca173f,0x6f161ea581593ba1,0x6f17369da61b3214,0x6f194dda7a644200,0x6f1cbb1d4b223474,0x6f1dd3156fe42ae7,0x6f20a6ccc98f6b62,0x6f21b21e01142fb4,
0x6f21e4b9b608f838,0x6f22ca1625d62627,0x6f23e20e4a981c9a,0x6f23fb5c251280dc,0x6f242150ecca173f,0x6f258c55f859a757,0x6f261ea581593ba1,0x6f27369da61b3214,
0x6f2aa47adc18abd0,0x6f2cbb1d4b223474,0x6f2dd3156fe42ae7,0x6f2e6564f8e3bf31,0x6f30678a275d70bd,0x6f308d7eef150720,0x6f30a6ccc98f6b62,0x6f3168f63c94658f,
0x6f317f824c1f6730,0x6f31b21e01142fb4,0x6f32446d8a13c3fe,0x6f3251147750f61f,0x6f334fbec1988850,0x6f354fd521170f53,0x6f358c55f859a757,0x6f3611fe941c0980,
0x6f361ea581593ba1,0x6f37369da61b3214,0x6f385b3cb81a5aa8,0x6f3aa47adc18abd0,0x6f3cbb1d4b223474,0x6f3e6564f8e3bf31,0x6f402847852b7618,0x6f40678a275d70bd,
0x6f408d7eef150720,0x6f40f717e56da266,0x6f4168f63c94658f,0x6f417f824c1f6730,0x6f41b21e01142fb4,0x6f41ee9ed856c7b8,0x6f42446d8a13c3fe,0x6f454fd521170f53,
0x6f4611fe941c0980,0x6f461ea581593ba1,0x6f47369da61b3214,0x6f485b3cb81a5aa8,0x6f49da0c084589c0,0x6f4db4d50442dee5,0x6f4e6564f8e3bf31,0x6f5000b2fbf43818,
0x6f502847852b7618,0x6f5049dac074023d,0x6f508d7eef150720,0x6f508fafb54c8c3f,0x6f513e0ee3b5e76c,0x6f5168f63c94658f,0x6f51b21e01142fb4,0x6f51c13e36e4d5b5,
0x6f5249f11ff28940,0x6f54745dd397b0e4,0x6f5611fe941c0980,0x6f561ea581593ba1,0x6f57369da61b3214,0x6f578ee5a06ba23a,0x6f599175487d9d1d,0x6f59da0c084589c0,
0x6f5d5c8d09f26ebf,0x6f5db4d50442dee5,0x6f603536f4c496fa,0x6f60601e4da3151d,0x6f608d7eef150720,0x6f6168f63c94658f,0x6f61951a39bc9da2,0x6f61c13e36e4d5b5,
0x6f64745dd397b0e4,0x6f65d57dbcd9717c,0x6f6611fe941c0980,0x6f67369da61b3214,0x6f678ee5a06ba23a,0x6f699175487d9d1d,0x6f6d5c8d09f26ebf,0x6f70601e4da3151d,
0x6f70e48a451bbd56,0x6f7168f63c94658f,0x6f71951a39bc9da2,0x6f71ed62340d0dc8,0x6f7491ffed141fee,0x6f75d57dbcd9717c,0x6f76860db17a51c8,0x6f77369da61b3214,
0x6f778ee5a06ba23a,0x6f77e72d9abc1260,0x6f7d5c8d09f26ebf,0x6f80e48a451bbd56,0x6f8168f63c94658f,0x6f81951a39bc9da2,0x6f81ed62340d0dc8,0x6f83138d13685ec8,
0x6f83b54bfb4b078f,0x6f8491ffed141fee,0x6f84ea47e7649014,0x6f86860db17a51c8,0x6f87369da61b3214,0x6f878ee5a06ba23a,0x6f87e72d9abc1260,0x6f8a5fa7569aec73,
0x6f8d5c8d09f26ebf,0x6f8edaffe39e2fe5,0x6f906eef5a614ca2,0x6f9168f63c94658f,0x6f91951a39bc9da2,0x6f91ed62340d0dc8,0x6f93138d13685ec8,0x6f93d2c6803e3f5b,
0x6f9491ffed141fee,0x6f95e44ec997a901,0x6f97369da61b3214,0x6f97e72d9abc1260,0x6f9a5fa7569aec73,0x6f9d30690cca36ac,0x6f9d5c8d09f26ebf,0x6f9edaffe39e2fe5,
0x6fa016a76010dc7c,0x6fa06eef5a614ca2,0x6fa12e28c7372d35,0x6fa1951a39bc9da2,0x6fa3138d13685ec8,0x6fa3d2c6803e3f5b,0x6fa7d8705842767a,0x6fa7e72d9abc1260,
0x6fa821fb10194aba,0x6faa5fa7569aec73,0x6fac9d539d1c8e2c,0x6fad5c8d09f26ebf,0x6fb007ea1d974096,0x6fb016a76010dc7c,0x6fb016e2bedeaf59,0x6fb0603217e7b0bc,
0x6fb06eef5a614ca2,0x6fb08c9173ddbbac,0x6fb0b11b70fb52ef,0x6fb0ebe8e6588b49,0x6fb12e28c7372d35,0x6fb3138d13685ec8,0x6fb3a6a283160748,0x6fb41c513815139b,
0x6fb7d8705842767a,0x6fb7e72d9abc1260,0x6fba33835972b460,0x6fbc7fd918295660,0x6fbd5c8d09f26ebf,0x6fbd6bad3fc314c0,0x6fbfbefeac5f7a98,0x6fc007ea1d974096,
0x6fc016e2bedeaf59,0x6fc04a3dc8ba7e21,0x6fc0603217e7b0bc,0x6fc06eef5a614ca2,0x6fc08c9173ddbbac,0x6fc0b11b70fb52ef,0x6fc0e4b1d9a4f494,0x6fc0ebe8e6588b49,
0x6fc12e28c7372d35,0x6fc2036a4d7edc02,0x6fc3138d13685ec8,0x6fc34e821d4ece60,0x6fc4a4629b09d4fe,0x6fc706d43d76e0d7,0x6fc7e72d9abc1260,0x6fca33835972b460,
0x6fcc7fd918295660,0x6fcd6bad3fc314c0,0x6fcfbefeac5f7a98,0x6fd0a7ea1a007867,0x6fd0b11b70fb52ef,0x6fd1392cd3f01452,0x6fd241f0f89cc925,0x6fd2ca025b918a88,
0x6fd3138d13685ec8,0x6fd4a4629b09d4fe,0x6fd6353822ab4b34,0x6fd706d43d76e0d7,0x6fd90d587a176360,0x6fdef693e88ebf7d,0x6fdfbefeac5f7a98,0x6fe00444b21b276c,
0x6fe0603217e7b0bc,0x6fe0a7ea1a007867,0x6fe0ac82c57de5ab,0x6fe0b11b70fb52ef,0x6fe131ce32b3465f,0x6fe19e4b90b7782a,0x6fe3138d13685ec8,0x6fe4a4629b09d4fe,
0x6fe6353822ab4b34,0x6fe706d43d76e0d7,0x6fe7cf3f01479bf2,0x6fe9a06de9c50be0,0x6fea33835972b460,0x6feafeb41302d02a,0x6feef693e88ebf7d,0x6fefbefeac5f7a98,
0x6ff0ac82c57de5ab,0x6ff0b11b70fb52ef,0x6ff16bbc3253c63e,0x6ff3012a6572a9b8,0x6ff30ef467eaf184,0x6ff3138d13685ec8,0x6ff3d75f2bbbac9f,0x6ff4a4629b09d4fe,
0x6ff7cf3f01479bf2,0x6ff7d18b57065294,0x6ff956e331ee37a0,0x6ff96945dfe3ecb0,0x6ffafeb41302d02a,0x6ffef693e88ebf7d,0x6fffbefeac5f7a98,0x70030ef467eaf184,
0x7003d75f2bbbac9f,0x7004a4629b09d4fe,0x70056f19b49946bb,0x70063c1d23e76f1a,0x7007cf3f01479bf2,0x7007d18b57065294,0x7009681fb504915f,0x70096945dfe3ecb0,
0x700afeb41302d02a,0x700c94224621b3a4,0x700ef693e88ebf7d,0x700fbefeac5f7a98,0x7010b9269d16d226,0x70117739df0d5768,0x7011786009ecb2b9,0x70118503e1859f34,
0x70130ef467eaf184,0x701373bcdf42fcba,0x7014a4629b09d4fe,0x7016a0e59b3f7a50,0x7017d18b57065294,0x7019681fb504915f,0x70196945dfe3ecb0,0x70197ba88dd9a1c0,
0x701a32d6ce94031c,0x701afeb41302d02a,0x701e2bdcceff4dc0,0x701ef693e88ebf7d,0x7020ab5c9a9e8a5a,0x70217739df0d5768,0x7021dd288144bdef,0x70237296b463a169,
0x702373bcdf42fcba,0x7025d50856d0ad42,0x702639d0ce28b878,0x7026a0e59b3f7a50,0x7027d18b57065294,0x7029681fb504915f,0x702afeb41302d02a,0x702d2d9b4ee47b17,
0x702e2bdcceff4dc0,0x702f5c828ac62604,0x70317739df0d5768,0x7031786009ecb2b9,0x703190ff125307de,0x7031dd288144bdef,0x7032db6a015f9098,0x70330ef467eaf184,
0x703373bcdf42fcba,0x7033a6211aef0255,0x7036a0e59b3f7a50,0x7037d18b57065294,0x7039681fb504915f,0x70396945dfe3ecb0,0x703d2d9b4ee47b17,0x703e2bdcceff4dc0,
0x703f5c828ac62604,0x7040469423467f24,0x704190ff125307de,0x7041dd288144bdef,0x704373bcdf42fcba,0x704458392c181eed,0x70478561e8149c83,0x7047d18b57065294,
0x7049681fb504915f,0x704a597e9b7c8bcd,0x704d2d9b4ee47b17,0x704f5c828ac62604,0x705000298ab191a8,0x7050074d4df7a14e,0x7050593593461ff4,0x7050f8ac346f9bbc,
0x7051184f9f170aa7,0x705190ff125307de,0x7051dd288144bdef,0x7054b14534acad39,0x7056430225239300,0x70578561e8149c83,0x7057d18b57065294,0x7059681fb504915f,
0x7059e0cf28408e96,0x705a597e9b7c8bcd,0x705b9706f0e63c4c,0x705e2bdcceff4dc0,0x705f5c828ac62604,0x7060074d4df7a14e,0x70607ffcc1339e85,0x70609fa02bdb0d70,
0x7061184f9f170aa7,0x706190ff125307de,0x7065b8e71d49cb3a,0x70661b538e60a4de,0x70678561e8149c83,0x7068ef7041c89428,0x7069e0cf28408e96,0x706a597e9b7c8bcd,
0x706d79c4bdd63128,0x706e2bdcceff4dc0,0x706f5c828ac62604,0x707010adb679eca6,0x70709fa02bdb0d70,0x707190ff125307de,0x70726c1af6a5deb9,0x7072825df8cb024c,
0x70734736daf8b594,0x7074c78836d1d0cc,0x7075b8e71d49cb3a,0x70761b538e60a4de,0x707722f576fdc2df,0x7077ccdb22c52ce8,0x7079b44923f64770,0x7079e0cf28408e96,
0x707a597e9b7c8bcd,0x707d79c4bdd63128,0x70809fa02bdb0d70,0x708106bcd1330cc0,0x708190ff125307de,0x70822951f0367400,0x7082b39431566f1e,0x70841da28b0a66c3,
0x7085b8e71d49cb3a,0x7087ccdb22c52ce8,0x7088d6d52582ddbf,0x7089e0cf28408e96,0x708a597e9b7c8bcd,0x708ad22e0eb88904,0x70909fa02bdb0d70,0x7091a99a2e98be47,
0x7092e39e5cd19285,0x7093a4f317ce698c,0x7095b8e71d49cb3a,0x7097ccdb22c52ce8,0x7098d6d52582ddbf,0x7099e0cf28408e96,0x709d776ca3b59e52,0x709fd405f0f1d9d0,
0x70a1d9a45a13e1ae,0x70a2e39e5cd19285,0x70a35c4dd00d8fbc,0x70a3a4f317ce698c,0x70a3ed985f8f435c,0x70a4f792624cf433,0x70a73b9093437948,0x70a7ccdb22c52ce8,
0x70a88e2fddc203ef,0x70a9e0cf28408e96,0x70abf4c32dbbf044,0x70ade4648f56e50a,0x70aefa1619af4c60,0x70afd405f0f1d9d0,0x70b09fa02bdb0d70,0x70b16cac6e729af6,
0x70b1a99a2e98be47,0x70b1d9a45a13e1ae,0x70b2e39e5cd19285,0x70b35c4dd00d8fbc,0x70b3ed985f8f435c,0x70b4d33fbe6c874b,0x70b7ccdb22c52ce8,0x70b9e0cf28408e96,
0x70bad89fd90e08f9,0x70bde4648f56e50a,0x70befa1619af4c60,0x70bfd405f0f1d9d0,0x70c1d9a45a13e1ae,0x70c2e39e5cd19285,0x70c3ed985f8f435c,0x70c4d33fbe6c874b,
0x70c5dd39c12a3822,0x70c6de1f1aefcdbf,0x70c7ccdb22c52ce8,0x70c7df0474b5635c,0x70c8e8fe77731433,0x70cad89fd90e08f9,0x70cfd405f0f1d9d0,0x70d0e65dfdc274e8,
0x70d1be665f2b9000,0x70d1d9a45a13e1ae,0x70d2e39e5cd19285,0x70d3b71c69bea000,0x70d3e483b6972822,0x70d4d33fbe6c874b,0x70d4e0debbe0b022,0x70d5dd39c12a3822,
0x70d6de1f1aefcdbf,0x70d7ccdb22c52ce8,0x70d7df0474b5635c,0x70ddd23b3d66ae96,0x70df8b60a9310000,0x70dfd405f0f1d9d0,0x70e00e559c5959d0,0x70e0c20b59e20800,
0x70e0e65dfdc274e8,0x70e10f3af61eef6d,0x70e1be665f2b9000,0x70e1e74357880a85,0x70e2e39e5cd19285,0x70e3e483b6972822,0x70e4e0debbe0b022,0x70e6de1f1aefcdbf,
0x70e8db5f79feeb5c,0x70ef8b60a9310000,0x70efd405f0f1d9d0,0x70f0a7473c7012e8,0x70f0e65dfdc274e8,0x70f1e74357880a85,0x70f361cbdf765685,0x70f3e483b6972822,
0x70f4e0debbe0b022,0x70f6de1f1aefcdbf,0x70f8db5f79feeb5c,0x70f9598cfca3af5c,0x70f9d7ba7f48735c,0x70fb17b69a606af9,0x70ff514e19d10833,0x70ffd405f0f1d9d0,
0x710068307b1db0e8,0x7100a7473c7012e8,0x7100e65dfdc274e8,0x7101e2b9030bfce8,0x7102a4879b7f3085,0x71041f10236d7c85,0x7104823c99e51d22,0x7104e0debbe0b022,
0x71051ff57d331222,0x7108db5f79feeb5c,0x7108faeadaa81c5c,0x710b17b69a606af9,0x710f514e19d10833,0x711068307b1db0e8,0x7110a7473c7012e8,0x7110e65dfdc274e8,
0x71116da0295f5422,0x7111e74357880a85,0x7112a4879b7f3085,0x71130329bd7ac385,0x71132bc9c71c0fbf,0x7113e483b6972822,0x7114823c99e51d22,0x7114d1190b8c17a2,
0x7118db5f79feeb5c,0x7118faeadaa81c5c,0x711b17b69a606af9,0x711be299dbcbb9d0,0x711f4188697c6fb3,0x711fd405f0f1d9d0,0x712004c715eae200,0x7120148cc63f7a80,
0x71202919b9cb4ee8,0x712068307b1db0e8,0x7120a7473c7012e8,0x7120e65dfdc274e8,0x71215950248eae05,0x7121e74357880a85,0x71222e3cf104b8c5,0x712275368a816705,
0x7122bc3023fe1545,0x71230329bd7ac385,0x712346cad3493322,0x7123e483b6972822,0x7124d1190b8c17a2,0x712ed7aaeba851d0,0x712f4188697c6fb3,0x712f8b60a9310000,
0x712fd405f0f1d9d0,0x7130028e1cc9b9fb,0x713003f0019404cb,0x713004c715eae200,0x713005e6a077f89e,0x7130087a56101268,0x71300ca9ee152e40,0x71302919b9cb4ee8,
0x713068307b1db0e8,0x7130a7473c7012e8,0x71322951f0367400,0x71322e3cf104b8c5,0x713275368a816705,0x7132bc3023fe1545,0x713ac41d71f51800,0x713b13c52e4b44d9,
0x713d28ae15d94736,0x713f3d96fd674993,0x713f4188697c6fb3,0x713f8b60a9310000,0x714000d5a9d5bbe0,0x714004c715eae200,0x714068307b1db0e8,0x714087bbdbc6e1e8,
0x7140a7473c7012e8,0x7140a93ff27aa5f8,0x714275368a816705,0x714298b3573fbe25,0x7142bc3023fe1545,0x714b13c52e4b44d9,0x714d28ae15d94736,0x714f3d96fd674993,
0x714f8b60a9310000,0x715087bbdbc6e1e8,0x7150a7473c7012e8,0x7150a93ff27aa5f8,0x715298b3573fbe25,0x7152bc3023fe1545,0x7154d50a77a13dc2,0x7156e8f70429f697,
0x7158fedc46bd427c,0x715d28ae15d94736,0x715f3d96fd674993,0x715f3f8fb371dca3,0x7160a93ff27aa5f8,0x7160ab38a8853908,0x7160af2a149a5f28,0x7162bf25350df1dd,
0x7162c09fbd95e029,0x7162c50f572dab0d,0x7164d38fef194f76,0x7164d606d2a6874a,0x7166e8f70429f697,0x7168fddfebb7f8f4,0x7168fedc46bd427c,0x716f3d96fd674993,
0x717000577c53171c,0x717000d5a9d5bbe0,0x71709f646445c6a8,0x7170a355d05aecc8,0x7170a54e86657fd8,0x7170a7473c7012e8,0x7170a93ff27aa5f8,0x7170ab38a8853908,
0x7172b350f0ce7f7d,0x7172b7c08a664a61,0x7172b9f857322fd3,0x7172bc3023fe1545,0x7172be67f0c9fab7,0x7172c09fbd95e029,0x7174d38fef194f76,0x717f3d96fd674993,
0x717f8b60a9310000,0x7180000cffec36e8,0x71800010f4447715,0x718000186591c4ba,0x7180002baf28b9ce,0x718000315bc94691,0x718000577c53171c,0x7180a54e86657fd8,
0x7180a7473c7012e8,0x7180a93ff27aa5f8,0x71822dee87d48000,0x7182b9f857322fd3,0x7182bc3023fe1545,0x7182be67f0c9fab7,0x7182be877c2aa3e8,0x7186e8d778c94d66,
0x7188fdff7718a225,0x718abae442b90000,0x718f3d96fd674993,0x718f8b60a9310000,0x7190a7473c7012e8,0x7190a84397755c70,0x7190a93ff27aa5f8,0x7192bc3023fe1545,
0x7192bd4c0a6407fe,0x7192be67f0c9fab7,0x7192be877c2aa3e8,0x7194d3af7a79f8a7,0x7195de533f51f79f,0x7196e8d778c94d66,0x7198fdff7718a225,0x719d286eff17f4d4,
0x71a0a84397755c70,0x71a0a93ff27aa5f8,0x71a0aa3c4d7fef80,0x71a1b2c7d0ecb237,0x71a1b4e01257ee78,0x71a2be67f0c9fab7,0x71a2be877c2aa3e8,0x71a44e5d980df92b,
0x71a5de533f51f79f,0x71a6e8d778c94d66,0x71a8fdff7718a225,0x71ab13277567f6e4,0x71ac1dcb3a3ff5dc,0x71ad286eff17f4d4,0x71adada156234b1f,0x71b0a84397755c70,
0x71b0a93ff27aa5f8,0x71b1b2c7d0ecb237,0x71b2393599bea46c,0x71b23955251f4d9d,0x71b2be67f0c9fab7,0x71b2be877c2aa3e8,0x71b44e5d980df92b,0x71b491068943f8e9,
0x71b4d3cf05daa1d8,0x71b6e8d778c94d66,0x71b76e295b354ce2,0x71bb13277567f6e4,0x71bb55d0669df6a2,0x71bdada156234b1f,0x71c066b68ca54f6b,0x71c0a93ff27aa5f8,
0x71c1b3e3b752a4f0,0x71c2393599bea46c,0x71c2be67f0c9fab7,0x71c2be877c2aa3e8,0x71c44e5d980df92b,0x71c491068943f8e9,0x71c4b25b01def8c8,0x71c620dca5274e2c,
0x71c6e8d778c94d66,0x71cb13277567f6e4,0x71cb55d0669df6a2,0x71cb7724df38f681,0x71cb987957d3f660,0x71d066b68ca54f6b,0x71d1926fb356fbe0,0x71d1b3e3b752a4f0,
0x71d2393599bea46c,0x71d2be877c2aa3e8,0x71d375c84dcece9a,0x71d38643390b50c0,0x71d3ea602e3cf98e,0x71d4b25b01def8c8,0x71d6c783002e4d87,0x71d6e8d778c94d66,
0x71db7724df38f681,0x71db987957d3f660,0x71deea340a33754d,0x71df3d385b454e00,0x71e002b922d44fce,0x71e0137324d22456,0x71e13f4bd6e479fc,0x71e15005d8e24e84,
0x71e2393599bea46c,0x71e375c84dcece9a,0x71e3c92b4102a2e0,0x71e4b25b01def8c8,0x71e52f4fe34c0e00,0x71e6c783002e4d87,0x71e6e8d778c94d66,0x71e80415b43e77b5,
0x71eb987957d3f660,0x71eeea340a33754d,0x71f002b922d44fce,0x71f13f4bd6e479fc,0x71f2d77ef3c6b983,0x71f2f8d36c61b962,0x71f375c84dcece9a,0x71f52f4fe34c0e00,
0x71f6e8d778c94d66,0x71f80415b43e77b5,0x71f91f53efb3a204,0x71fb987957d3f660,0x71fd30ac74b635e7,0x71feea340a33754d,0x71ffc6f7d4f21500,0x720002b922d44fce,
0x720017c130b242a9,0x720062880c25da49,0x720077901a03cd24,0x72013f4bd6e479fc,0x7201bc40b8518f34,0x720375c84dcece9a,0x72052f4fe34c0e00,0x72062b50e665f301,
0x7207f3ba54629ec0,0x72080415b43e77b5,0x720a7b23dc1f1180,0x720a9a61147a56ce,0x720b987957d3f660,0x720d30ac74b635e7,0x720eea340a33754d,0x720fc6f7d4f21500,
0x72101257bf01f275,0x7210137324d22456,0x72104133938ada6a,0x721062880c25da49,0x7210b1bc7eda396d,0x72113f4bd6e479fc,0x7211bc40b8518f34,0x7211db7df0acd482,
0x72128965e6e28c40,0x7212f6bc2c21fed1,0x7213c92b4102a2e0,0x72152f4fe34c0e00,0x72156dca5402989c,0x7215ac44c4b92338,0x72162b50e665f301,0x721a7b23dc1f1180,
0x721b987957d3f660,0x721c92631aae20d0,0x721eea340a33754d,0x722006e7a353c4f0,0x72201257bf01f275,0x722049909489c4ae,0x722062880c25da49,0x72209eeb3c9caa54,
0x7220d40cd1e4c1fc,0x7221071726ed1f13,0x72213670e8adcb60,0x72213f4bd6e479fc,0x72218b4da388ecae,0x7221db7df0acd482,0x72228965e6e28c40,0x72252f4fe34c0e00,
0x7227b0d24c6b4ca0,0x7229a4a5d21fa180,0x722b987957d3f660,0x722c92631aae20d0,0x722d8c4cdd884b40,0x722eea340a33754d,0x723006e7a353c4f0,0x723028ba09268927,
0x7230295781bef6b0,0x72304dbf150939d0,0x723062880c25da49,0x72306d7a3a9c4376,0x723070ace0ac2fe8,0x72308cf669936af0,0x72309eeb3c9caa54,0x7230a4b3102415af,
0x72313670e8adcb60,0x72313f4bd6e479fc,0x7231d557bb4e4e00,0x72328965e6e28c40,0x72352f4fe34c0e00,0x7235bcfec6b6f7c0,0x7239a4a5d21fa180,0x723b987957d3f660,
0x723d8c4cdd884b40,0x723eea340a33754d,0x723f93ae894dd5bd,0x724005acd2485a14,0x724006e7a353c4f0,0x72400dab71702931,0x724021b784b92326,0x724028ba09268927,
0x7240295781bef6b0,0x7240342a24d4b6ac,0x724038392a063ab8,0x72403a30eef80433,0x724077120ca69896,0x72408cf669936af0,0x72409eeb3c9caa54,0x7240b9f9f4787a80,
0x72413670e8adcb60,0x7241d557bb4e4e00,0x72440c1348f9f500,0x72452f4fe34c0e00,0x7249a4a5d21fa180,0x724d8c4cdd884b40,0x724f93ae894dd5bd,0x724fe86bc8db05f5,
0x725000430027b93e,0x725005acd2485a14,0x725006e7a353c4f0,0x72500b74253a0497,0x72500bf272e21991,0x72500dda8a3fa29c,0x725012b630ebc5b7,0x725017822a03a862,
0x72501b910f0fbc38,0x7250342a24d4b6ac,0x725038392a063ab8,0x72503a30eef80433,0x72508cf669936af0,0x7250b9f9f4787a80,0x7251d557bb4e4e00,0x72552f4fe34c0e00,
0x7256624a2496b200,0x7259a4a5d21fa180,0x725f3d385b454e00,0x725fe86bc8db05f5,0x7260018dff5d2562,0x726005acd2485a14,0x7260062a7f353e00,0x72600bf272e21991,
0x72600cde6f853980,0x72600dd2a362ca49,0x72600dda8a3fa29c,0x72600e977e26013b,0x726012b630ebc5b7,0x72601a1747686f30,0x72601b910f0fbc38,0x72602309da22eeaa,
0x7260342a24d4b6ac,0x726038392a063ab8,0x7260b9f9f4787a80,0x7261d557bb4e4e00,0x72652f4fe34c0e00,0x726889480b49ce00,0x726acfc13fee0000,0x726f3d385b454e00,
0x726fe86bc8db05f5,0x726ffd9b18be5203,0x72700004aa470820,0x7270018dff5d2562,0x727001be1958207d,0x72700262a7da0cfa,0x727002d0870d4040,0x72700342e24dfc95,
0x727003f4d4e5cc24,0x727005955dfcb187,0x727005acd2485a14,0x7270062a7f353e00,0x727009a057a3b541,0x72700dd2a362ca49,0x72700dda8a3fa29c,0x72700e977e26013b,
0x72702309da22eeaa,0x7271b5dc6d5d3800,0x7271d557bb4e4e00,0x72752f4fe34c0e00,0x727642ced6a59c00,0x727889480b49ce00,0x727acfc13fee0000,0x727cf6bf26a11c00,
0x727ffd9b18be5203,0x7280003b573bfc60,0x728000a776bcd1a9,0x728000d4d45ca1b2,0x728001238af94160,0x728001cab35723c2,0x72800262a7da0cfa,0x728002d0870d4040,
0x72800342e24dfc95,0x728005acd2485a14,0x728009a057a3b541,0x72800dda8a3fa29c,0x72800e977e26013b,0x7281d557bb4e4e00,0x728233c9a5219000,0x72832fa414aa4000,
0x72852f4fe34c0e00,0x728acfc13fee0000,0x728cf6bf26a11c00,0x728ffcc49ab45293,0x728ffd9b18be5203,0x7290003b573bfc60,0x7290004d0cef41f0,0x72900063256719eb,
0x7290008815cc4f09,0x729000e8c00d4fbc,0x729000ece4e0c6b2,0x729001238af94160,0x72900342e24dfc95,0x729005acd2485a14,0x72900aa9e9f4f653,0x72900dda8a3fa29c,
0x72900e977e26013b,0x729137ef3598e000,0x7291d557bb4e4e00,0x72932fa414aa4000,0x72938253cf4d2e00,0x72952f4fe34c0e00,0x729acfc13fee0000,0x729ffc595baf52db,
0x729ffcc49ab45293,0x72a0001568e8ad08,0x72a0003b573bfc60,0x72a00043a70452a2,0x72a0004d0cef41f0,0x72a0008815cc4f09,0x72a000b84bf441a8,0x72a000e8c00d4fbc,
0x72a00342e24dfc95,0x72a003e92c89ce5d,0x72a00aa9e9f4f653,0x72a00dda8a3fa29c,0x72a00e15957674ac,0x72a32fa414aa4000,0x72a38253cf4d2e00,0x72a458d1d94c9e00,
0x72a52f4fe34c0e00,0x72a71f0dd2cd0000,0x72aacfc13fee0000,0x72affc23bc2cd2ff,0x72affc595baf52db,0x72b0000e344fe056,0x72b0001568e8ad08,0x72b000176d6cc214,
0x72b0002c87f67fd5,0x72b0002cb4c48d65,0x72b0004d0cef41f0,0x72b00342e24dfc95,0x72b003e92c89ce5d,0x72b00543037fe459,0x72b00dda8a3fa29c,0x72b00e15957674ac,
0x72b00fa50bef0a84,0x72b1368bb86f0b4e,0x72b14bbb0852575c,0x72b15652b043fd63,0x72b458d1d94c9e00,0x72b4c410de4c5600,0x72b52f4fe34c0e00,0x72b71f0dd2cd0000,
0x72bacfc13fee0000,0x72be8074ad0f0000,0x72bffc23bc2cd2ff,0x72c00342e24dfc95,0x72c004ae31ebf02f,0x72c00543037fe459,0x72c00dda8a3fa29c,0x72c00f2b0a1c5648,
0x72c00fa50bef0a84,0x72c1368bb86f0b4e,0x72c141236060b155,0x72c14bbb0852575c,0x72c15652b043fd63,0x72c4c410de4c5600,0x72c4f9b060cc3200,0x72c52f4fe34c0e00,
0x72c9fc30346d2911,0x72d1215c688bbf40,0x72d1368bb86f0b4e,0x72d14bbb0852575c,0x72d15652b043fd63,0x72d160ea5835a36a,0x72d5a9417258933a,0x72d9b20a9cd19ee0,
0x72d9d1d194a690f5,0x72d9f1988c7b830a,0x72d9fc30346d2911,0x72da115f8450751f,0x72e0f6fdc8c52724,0x72e1215c688bbf40,0x72e14bbb0852575c,0x72e15652b043fd63,
0x72e160ea5835a36a,0x72e534bd3af670ed,0x72e569b382aeaf10,0x72e59ea9ca66ed33,0x72e5a9417258933a,0x72ea06c7dc5ecf18,0x72ea115f8450751f,0x72ec2af369704700,
0x72f14bbb0852575c,0x72f15652b043fd63,0x72f17619a818ef78,0x72f38515e5471b52,0x72f3a4dcdd1c0d67,0x72f59ea9ca66ed33,0x72f5a9417258933a,0x72f8ea1a6de46d1d,
0x72fa06c7dc5ecf18,0x72fc2af369704700,0x7300443ce9bb416f,0x7300ae29792bbdb5,0x73014bbb0852575c,0x7301cad6e7a61fb0,0x7301df5d93885b5d,0x73038515e5471b52,
0x73059ea9ca66ed33,0x7305a9417258933a,0x7306bb5738e14f2e,0x7308ea1a6de46d1d,0x730a06c7dc5ecf18,0x730c2af369704700,0x730e4f1ef681bee8,0x730ff4d748407edd,
0x7310443ce9bb416f,0x73117619a818ef78,0x7311df5d93885b5d,0x7312f1735a111751,0x73138515e5471b52,0x7313a4dcdd1c0d67,0x731520368f143540,0x7316bb5738e14f2e,
0x7318ea1a6de46d1d,0x731a06c7dc5ecf18,0x731c2af369704700,0x731c6f78db1275fd,0x731e4f1ef681bee8,0x731ff4d748407edd,0x73200f46a203034c,0x7320443ce9bb416f,
0x732053cc13a53249,0x7321215c688bbf40,0x73219ad821e62c60,0x7321e9f53b7a0164,0x73235d87587d30d0,0x73238515e5471b52,0x7324e648c563ac4a,0x732520368f143540,
0x7327e29c4f4d5730,0x732a06c7dc5ecf18,0x732c2af369704700,0x732c6f78db1275fd,0x732ff4d748407edd,0x73300f46a203034c,0x733011e9320744d0,0x73303615c94fa762,
0x73303977bed12f52,0x733053cc13a53249,0x73306bcb76852bf1,0x73308e628156cba0,0x7330b980869aaa28,0x7331215c688bbf40,0x733126fc8e851a74,0x73319ad821e62c60,
0x7331e9f53b7a0164,0x733260a0e1d7c0ea,0x73335d87587d30d0,0x73339a45352a6760,0x7333c74664f54100,0x7336132e01c90f80,0x7337e29c4f4d5730,0x733c2af369704700,
0x733ff4d748407edd,0x73400f46a203034c,0x734010f2eff5fc3a,0x73402de9d4ce40b5,0x73402f245b542b6c,0x73403615c94fa762,0x734048d4b8f4e90c,0x734053cc13a53249,
0x73405fe286916528,0x73408a2a64dbc739,0x73408e628156cba0,0x7340b980869aaa28,0x7341215c688bbf40,0x734126fc8e851a74,0x73419ad821e62c60,0x73439a45352a6760,
0x7346132e01c90f80,0x73485f159e9cde00,0x734c2af369704700,0x734cf6e4d8447b00,0x734ff4d748407edd,0x73500342e24dfc95,0x735009ef6d4c1543,0x73500dda8a3fa29c,
0x73500f46a203034c,0x7350107ed222087e,0x735011e9320744d0,0x735016c545b58e8e,0x73501b5f6b561bb0,0x735025b0786c3a11,0x73502f245b542b6c,0x73503615c94fa762,
0x73503b563c8a5f60,0x735048d4b8f4e90c,0x735053cc13a53249,0x7350b980869aaa28,0x7351215c688bbf40,0x7353c74664f54100,0x73552f4fe34c0e00,0x7356132e01c90f80,
0x73585f159e9cde00,0x735c2af369704700,0x735ff4d748407edd,0x735ff6d13443b000,0x736000f60ce4070c,0x7360040fafabe2f8,0x7360058ddc1daea9,0x736009ef6d4c1543,
0x73600a95bae6401f,0x73600b6402bbf9d8,0x73600ba76b4189ca,0x7360107ed222087e,0x736016c545b58e8e,0x73601b5f6b561bb0,0x73602ca9c58b78c5,0x73603615c94fa762,
0x73603b563c8a5f60,0x736048d4b8f4e90c,0x73625f3ce69e7400,0x7366132e01c90f80,0x73685f159e9cde00,0x736c2af369704700,0x736e5eee569b4800,0x736ff4d748407edd,
0x736ff6d13443b000,0x73700043d1e10f8f,0x737000f60ce4070c,0x7370040fafabe2f8,0x7370058ddc1daea9,0x737006657d8efe76,0x73700a95bae6401f,0x73700b6402bbf9d8,
0x73700ec92a93797c,0x7370107ed222087e,0x737016c545b58e8e,0x73701b5f6b561bb0,0x73702ca9c58b78c5,0x7370c75a08f60c00,0x737203863b3edc90,0x73721fb12ea84cd7,
0x73725f3ce69e7400,0x73785f159e9cde00,0x737c2af369704700,0x737e5eee569b4800,0x737ff4d748407edd,0x737ff6d13443b000,0x7380107ed222087e,0x7380140e4a9bfc84,
0x7380283b89b85bdf,0x73802ca9c58b78c5,0x738192da6d991b74,0x7381cb30546bfc02,0x7381e75b47d56c49,0x738203863b3edc90,0x73821fb12ea84cd7,0x73842d3f1c5f5b00,
0x738a5c47a465a92e,0x738b054958de4ad8,0x738b21744c47bb1f,0x738c2af369704700,0x73900d48c66df0ca,0x73900e082beb3736,0x7390107ed222087e,0x73901e3690e10e1b,
0x73902574dfb0d89b,0x73902ca9c58b78c5,0x73902e64f5d6e500,0x7391222e9ff35a58,0x739192da6d991b74,0x7391cb30546bfc02,0x739203863b3edc90,0x73956aba47f030ee,
0x73968467ca0e93b4,0x73982c1942e7d100,0x739a5c47a465a92e,0x739ab0c87ea1fa03,0x739b054958de4ad8,0x739b21744c47bb1f,0x739c2af369704700,0x739fa255db177243,
0x73a006486e6d3766,0x73a00cb162d9035c,0x73a0107ed222087e,0x73a01c751a9cdafc,0x73a026dce92f2f68,0x73a02ca9c58b78c5,0x73a040d704a7d820,0x73a1222e9ff35a58,
0x73a192da6d991b74,0x73a203863b3edc90,0x73a248f1e53cd324,0x73a443f702a6b822,0x73a56aba47f030ee,0x73a5f79108ff6251,0x73a62cac2fa39600,0x73a68467ca0e93b4,
0x73aa2b86562c0c00,0x73ac2af369704700,0x73afa255db177243,0x73b00683423fe510,0x73b00cb162d9035c,0x73b0107ed222087e,0x73b01598727e3f51,0x73b019c726041962,
0x73b02ca9c58b78c5,0x73b040d704a7d820,0x73b04decc7d2ee26,0x73b0e34dd78aeec7,0x73b1222e9ff35a58,0x73b135cf44b3fb61,0x73b203863b3edc90,0x73b248f1e53cd324,
0x73b3467473f1c5a3,0x73b443f702a6b822,0x73ba2b86562c0c00,0x73bc2af369704700,0x73bcfc4f9c21a760,0x73be2a607cb48200,0x73bfa255db177243,0x73c00683423fe510,
0x73c00ccd3b442878,0x73c0107ed222087e,0x73c01598727e3f51,0x73c0226d4d180dbc,0x73c02ca9c58b78c5,0x73c040d704a7d820,0x73c04decc7d2ee26,0x73c0e34dd78aeec7,
0x73c135cf44b3fb61,0x73c144e474f255a2,0x73c203863b3edc90,0x73c5a011d3e54400,0x73cba37b046cf9e0,0x73cc2af369704700,0x73ccfc4f9c21a760,0x73cde3ebcbd4d572,
0x73ce2a607cb48200,0x73cf04242f88c33b,0x73cfa255db177243,0x73d0110b6c7dc6d0,0x73d0122e499e5882,0x73d040d704a7d820,0x73d0af3d180c75d8,0x73d0c2ddbccd16e1,
0x73d0e34dd78aeec7,0x73d203863b3edc90,0x73d3c63571d5e100,0x73dba37b046cf9e0,0x73dcc3b36820e7a9,0x73dde3ebcbd4d572,0x73df04242f88c33b,0x73e0122e499e5882,
0x73e0e34dd78aeec7,0x73e203863b3edc90,0x73e6fb0d0ab996fa,0x73e81b456e6d84c3,0x73e9630a3d051e4e,0x73eba37b046cf9e0,0x73ede3ebcbd4d572,0x73ef04242f88c33b,
0x73f0122e499e5882,0x73f0e34dd78aeec7,0x73f159f31835f20d,0x73f203863b3edc90,0x73f2529f11063414,0x73f2a1b7e6cd8b98,0x73f4ba9c4351bb68,0x73f6e746d547c119,
0x73f6fb0d0ab996fa,0x73f72299759d42bc,0x73f74a25e080ee7e,0x73f81b456e6d84c3,0x73fa6f7c6b473636,0x73fba37b046cf9e0,0x73fde3ebcbd4d572,0x7400122e499e5882,
0x74004d80e9f3da25,0x7400d7ec6010b34c,0x7401462ce2c41c2c,0x74020beaf93676f6,0x7402529f11063414,0x7402a1b7e6cd8b98,0x74033fe9925c3aa0,0x7404ba9c4351bb68,
0x7406e746d547c119,0x7406fb0d0ab996fa,0x74081b456e6d84c3,0x7408b544bb006698,0x740a6f7c6b473636,0x740ba37b046cf9e0,0x7410122e499e5882,0x7410e34dd78aeec7,
0x7411462ce2c41c2c,0x741203863b3edc90,0x74130064930aebca,0x7413869daa2bf7be,0x7416fb0d0ab996fa,0x7417d828e2dcfec9,0x74181b456e6d84c3,0x7418b544bb006698,
0x741a6f7c6b473636,0x741ba37b046cf9e0,0x741d49ec7f41f39d,0x742069110aa0b45d,0x7421462ce2c41c2c,0x742287f38c404cf2,0x7423869daa2bf7be,0x742540d55a72c75c,
0x7426fb0d0ab996fa,0x7427d828e2dcfec9,0x7428b544bb006698,0x742ba37b046cf9e0,0x742d49ec7f41f39d,0x742e057a119d186f,0x742fe14007ac2b0a,0x743069110aa0b45d,
0x7431462ce2c41c2c,0x7431cc65f9e52820,0x7431edf43fad6b1d,0x743287f38c404cf2,0x743405f2b921cd24,0x743540d55a72c75c,0x743583f1e6034d56,0x74359e9c23a059c5,
0x74363f7f785e7228,0x7438b544bb006698,0x743a910ab10f7933,0x743ba37b046cf9e0,0x743cafed32af11c8,0x743e057a119d186f,0x74401e2a93d52a0c,0x7440554ad52ede7c,
0x744069110aa0b45d,0x744069f6edb08226,0x74407bf15d02bc75,0x74408e11547e92a1,0x7440e94bfca6578c,0x7441462ce2c41c2c,0x7441b1bbbc481bb1,0x7441cc65f9e52820,
0x744287f38c404cf2,0x744405f2b921cd24,0x74459e9c23a059c5,0x7445c70e7193d350,0x7446bb62833eac47,0x744771b24b649a40,0x7448b544bb006698,0x7449d20b1a9eb91a,
0x744ba37b046cf9e0,0x744e057a119d186f,0x744fd543bd755980,0x74508e11547e92a1,0x7450af9f9a46d59e,0x7451c8f3f5cf8cd9,0x7451cc65f9e52820,0x745287f38c404cf2,
0x7453a4b9ebde9f74,0x7453c2d62d91472a,0x74559e9c23a059c5,0x7456bb62833eac47,0x7458b544bb006698,0x7459d20b1a9eb91a,0x745d7716e1cdef2e,0x745f9e237c1ba510,
0x7461c8f3f5cf8cd9,0x7461d2340847046a,0x7462393ae3ec0e64,0x746287f38c404cf2,0x7463a4b9ebde9f74,0x7463c2d62d91472a,0x7464331d1badc8b5,0x74659e9c23a059c5,
0x7465de46ab1b4478,0x7466bb62833eac47,0x7468b544bb006698,0x7469d20b1a9eb91a,0x746aeed17a3d0b9c,0x746d285e3979b0a0,0x746d7716e1cdef2e,0x746f9e237c1ba510,
0x7471d2340847046a,0x747287f38c404cf2,0x7473a4b9ebde9f74,0x74759e9c23a059c5,0x7476bb62833eac47,0x7477ff8537071e10,0x74788de866d64751,0x7478b544bb006698,
0x7479d20b1a9eb91a,0x747fa47c87622e7c,0x747fff5c495ed2c0,0x74816b2d2ca1fa70,0x7481d2340847046a,0x74839892d23639be,0x7483a4b9ebde9f74,0x7483ff99addb43b8,
0x7486bb62833eac47,0x7487ff8537071e10,0x74888de866d64751,0x7488bb5847d49973,0x748abb4e0c6a869f,0x748fa47c87622e7c,0x748fff5c495ed2c0,0x7490d23925fc0dd4,
0x74917754464a6026,0x7491d2340847046a,0x7491ffa3e945568c,0x7493a4b9ebde9f74,0x7493ff99addb43b8,0x7494608cfcac1ad7,0x7494bb6cbea8bf1b,0x749749c5b30dd588,
0x74988de866d64751,0x7498bb5847d49973,0x749abb4e0c6a869f,0x749ba490fe365424,0x749fa47c87622e7c,0x749fff5c495ed2c0,0x74a0523bb4d69289,0x74a0d23925fc0dd4,
0x74a0ffa906fa5ff6,0x74a1bb7c17c7db59,0x74a1ffa3e945568c,0x74a4bb6cbea8bf1b,0x74a7a4a5750a79cc,0x74a7bb5d6589a2dd,0x74a83b5ad6af1e28,0x74a8bb5847d49973,
0x74a93b55b8fa14be,0x74aba490fe365424,0x74afa47c87622e7c,0x74afff5c495ed2c0,0x74b0523bb4d69289,0x74b07fab95d4e4ab,0x74b0d23925fc0dd4,0x74b0ffa906fa5ff6,
0x74b4bb6cbea8bf1b,0x74b63b65121930fc,0x74b7bb5d6589a2dd,0x74b83b5ad6af1e28,0x74b93b55b8fa14be,0x74bba490fe365424,0x74bc6fe9202e219d,0x74bda486c2cc4150,
0x74bfa47c87622e7c,0x74bfff5c495ed2c0,0x74c03b83c4576978,0x74c0523bb4d69289,0x74c0d23925fc0dd4,0x74c286d439bfa8d2,0x74c2f019ba65fb0c,0x74c506c76f7b1149,
0x74c5a4afb0748ca0,0x74c63b65121930fc,0x74c661126a825a13,0x74c7bb5d6589a2dd,0x74c83b5ad6af1e28,0x74cc6fe9202e219d,0x74cda486c2cc4150,0x74cfa47c87622e7c,
0x74d0523bb4d69289,0x74d077e90d3fbba0,0x74d0d23925fc0dd4,0x74d22c842103569e,0x74d2d22eea91fb00,0x74d359a70fac764e,0x74d486c9fe5595fe,0x74d506c76f7b1149,
0x74d661126a825a13,0x74d83b5ad6af1e28,0x74deca2efd8060fd,0x74e0523bb4d69289,0x74e077e90d3fbba0,0x74e0ac8bcd92e4bd,0x74e1a50bfbe8db50,0x74e22c842103569e,
0x74e286d439bfa8d2,0x74e2d22eea91fb00,0x74e359a70fac764e,0x74e486c9fe5595fe,0x74e533ef7bd93a63,0x74e83b5ad6af1e28,0x74e9ff0f3caccdb0,0x74ea95a0b4015d88,
0x74eda486c2cc4150,0x74eeca2efd8060fd,0x74f0523bb4d69289,0x74f215f01ad44211,0x74f22c842103569e,0x74f359a70fac764e,0x74f3f03887010626,0x74f533ef7bd93a63,
0x74f5b3ececfeb5ae,0x74f6ac5b262ca1ff,0x74f83b5ad6af1e28,0x74f9ff0f3caccdb0,0x74fa95a0b4015d88,0x74fcefe691539ce8,0x74fd067a9782b175,0x75009d847080da75,
0x750115f538894b7b,0x75022c842103569e,0x75030e5e54022e62,0x750359a70fac764e,0x750386cf1c0a9f68,0x7503f03887010626,0x750533ef7bd93a63,0x7506ac5b262ca1ff,
0x75083b5ad6af1e28,0x7509687dc5583dd8,0x7509ff0f3caccdb0,0x750a95a0b4015d88,0x750d067a9782b175,0x750d2c1ef557d56b,0x75102c9757016e93,0x75109d847080da75,
0x75130e5e54022e62,0x751359a70fac764e,0x75137f4b6d819a44,0x7513f03887010626,0x75163b6e0cad361d,0x7516ac5b262ca1ff,0x7519687dc5583dd8,0x7519ec3d0dc23bb5,
0x7519ff0f3caccdb0,0x751a95a0b4015d88,0x751d067a9782b175,0x751d2c1ef557d56b,0x75202c9757016e93,0x75203f6985ec008e,0x75222c842103569e,0x75230e5e54022e62,
0x75236c793e970849,0x75237f4b6d819a44,0x752533ef7bd93a63,0x75263b6e0cad361d,0x7526ac5b262ca1ff,0x75283b5ad6af1e28,0x75284c4c19f76eda,0x7529687dc5583dd8,
0x7529ec3d0dc23bb5,0x7529ff0f3caccdb0,0x75303f6985ec008e,0x7530d9bcd48512f8,0x7531105275a287a0,0x7531df5a79b6cd69,0x753241373b9029e2,0x75329d713a82c280,
0x75336c793e970849,0x75350c6a3261d524,0x753677a670b16ea0,0x7536ac5b262ca1ff,0x75384c4c19f76eda,0x7538d1ec4e03ae00,0x7539ff0f3caccdb0,0x753f929f4b92bfb6,
0x7540223dc9bb04f1,0x75403f6985ec008e,0x7540fb9f5b15b45c,0x7541694099942cb6,0x7541cc884acc3b6e,0x7541df5a79b6cd69,0x7544a9228129c66c,0x75450c6a3261d524,
0x7545d2f994d1f294,0x7546ac5b262ca1ff,0x75484c4c19f76eda,0x7549ff0f3caccdb0,0x754ab2cc70325925,0x754b2c322b55ed60,0x754b8c2e018d0890,0x754d194cc66d4370,
0x754f929f4b92bfb6,0x755019c52816dc98,0x7551694099942cb6,0x75521cfdcd19b82b,0x75522fcffc044a26,0x7554a9228129c66c,0x75550c6a3261d524,0x7555d2f994d1f294,
0x7556ac5b262ca1ff,0x75584c4c19f76eda,0x755a4f84befa4a6d,0x755b8c2e018d0890,0x755bef75b2c51748,0x755d194cc66d4370,0x755f60fb72f6b85a,0x75605e3b2f9d75ef,
0x7561379cc0f8255a,0x7561694099942cb6,0x75622fcffc044a26,0x7564a9228129c66c,0x75650c6a3261d524,0x7566ac5b262ca1ff,0x756a1de0e65e4311,0x756a4f84befa4a6d,
0x756b8c2e018d0890,0x756bef75b2c51748,0x756d194cc66d4370,0x756f60fb72f6b85a,0x7571379cc0f8255a,0x7571694099942cb6,0x7571b3b65e7e37c0,0x7572f05fa110f5e3,
0x75732e6c6fd3ff16,0x7574f3984613d176,0x75750c6a3261d524,0x75753e0e0afddc80,0x7576ac5b262ca1ff,0x7578651e06457288,0x757a1de0e65e4311,0x757a4f84befa4a6d,
0x757b8c2e018d0890,0x757bef75b2c51748,0x757c52bd63fd2600,0x757f60fb72f6b85a,0x7581379cc0f8255a,0x758175a98fbb2e8d,0x7581b3b65e7e37c0,0x7582f05fa110f5e3,
0x75832e6c6fd3ff16,0x758378e234be0a20,0x7584f3984613d176,0x7586ac5b262ca1ff,0x7588651e06457288,0x758a2a49dc8544e8,0x758b8c2e018d0890,0x758bef75b2c51748,
0x758c52bd63fd2600,0x758f60fb72f6b85a,0x759021c8af0b50c5,0x759175a98fbb2e8d,0x75923f6d8e8d140f,0x75924bd684b415e6,0x75932e6c6fd3ff16,0x7594dac659c5cdc8,
0x7594f3984613d176,0x7596ac5b262ca1ff,0x7598651e06457288,0x7599b8fee6f55050,0x759a2a49dc8544e8,0x759bef75b2c51748,0x759cc5a2a7bdfea1,0x75a021c8af0b50c5,
0x75a175a98fbb2e8d,0x75a24bd684b415e6,0x75a32e6c6fd3ff16,0x75a39fb76563f3ae,0x75a4f3984613d176,0x75a5587a457cc437,0x75a8651e06457288,0x75a9b8fee6f55050,
0x75aa2a49dc8544e8,0x75abef75b2c51748,0x75acc5a2a7bdfea1,0x75acfe482285f8ed,0x75b021c8af0b50c5,0x75b05a6e29d34b11,0x75b24bd684b415e6,0x75b2f5c6f50c04ca,
0x75b32e6c6fd3ff16,0x75b36711ea9bf962,0x75b39fb76563f3ae,0x75b5587a457cc437,0x75b6900868c8a4d9,0x75b8651e06457288,0x75b947b3f1655bb8,0x75b9b8fee6f55050,
0x75ba2a49dc8544e8,0x75bcc5a2a7bdfea1,0x75bcfe482285f8ed,0x75bd1a9adfe9f613,0x75c021c8af0b50c5,0x75c05a6e29d34b11,0x75c2f5c6f50c04ca,0x75c34abf2d37fc3c,
0x75c358e88be9facf,0x75c36711ea9bf962,0x75c39fb76563f3ae,0x75c61ebd7338b041,0x75c6900868c8a4d9,0x75c947b3f1655bb8,0x75c9b8fee6f55050,0x75c9c72845a74ee3,
0x75ca2a49dc8544e8,0x75ccfe482285f8ed,0x75cd1a9adfe9f613,0x75d0139f50595232,0x75d2a0cebce00d58,0x75d2f5c6f50c04ca,0x75d34abf2d37fc3c,0x75d358e88be9facf,
0x75d5bb9bdc5aba3c,0x75d61ebd7338b041,0x75d6900868c8a4d9,0x75d82b985737f9de,0x75d8d668fbd56720,0x75d947b3f1655bb8,0x75d9b8fee6f55050,0x75d9c72845a74ee3,
0x75db62b83416a3e8,0x75dcfe482285f8ed,0x75e0139f50595232,0x75e077a11b7cc695,0x75e113682d22b6e6,0x75e1af2f3ec8a737,0x75e1f6de4c881e74,0x75e2a0cebce00d58,
0x75e7f3d310b57df0,0x75e82b985737f9de,0x75e8d668fbd56720,0x75e9b8fee6f55050,0x75e9c72845a74ee3,0x75eb62b83416a3e8,0x75ecfe482285f8ed,0x75ee99d810f54df2,
0x75f0139f50595232,0x75f0a13d034d43f0,0x75f17619a9ddedbc,0x75f1af2f3ec8a737,0x75f4f4787a594fd4,0x75f6259a15804ff3,0x75f82b985737f9de,0x75f9b8fee6f55050,
0x75fa9b94d2153980,0x75fb62b83416a3e8,0x75fcfe482285f8ed,0x75fe99d810f54df2,0x75ff6eb4b785f7be,0x7600139f50595232,0x7601af2f3ec8a737,0x760227c6f0c2fab0,
0x76048a0a2710faee,0x7604f4787a594fd4,0x7605c95520e9f9a0,0x7606259a15804ff3,0x760991f11c032470,0x7609b8fee6f55050,0x760a319698efa3c9,0x760b62b83416a3e8,
0x760cfe482285f8ed,0x760d0c718137f780,0x760e99d810f54df2,0x7610139f50595232,0x7610354f948466b5,0x761056ffd8af7b38,0x7610afd67c2201b2,0x76111db3208e2671,
0x7611af2f3ec8a737,0x7611e0f8174901d1,0x761227c6f0c2fab0,0x7612b9430efd7b76,0x76131219b27001f0,0x7613a1a69b073b32,0x76148a0a2710faee,0x761991f11c032470,
0x7619b8fee6f55050,0x761b62b83416a3e8,0x761c15e4967c3931,0x761cfe482285f8ed,0x761d0c718137f780,0x7620139f50595232,0x7620354f948466b5,0x76211db3208e2671,
0x76219ba8594f9147,0x7621af2f3ec8a737,0x7622b9430efd7b76,0x7623a1a69b073b32,0x76241f9bd3c8a608,0x76248a0a2710faee,0x762991f11c032470,0x7629b8fee6f55050,
0x762a0622e208044e,0x762b62b83416a3e8,0x762c15e4967c3931,0x762d7279e88ad8cb,0x7630354f948466b5,0x76307e0da3a1a718,0x76311db3208e2671,0x7631d0df82f3bbba,
0x76328dcf5815dbfb,0x76332d74d5025b54,0x7633a1a69b073b32,0x76348a0a2710faee,0x7634c904c371b059,0x7637c12a03efa4f8,0x763991f11c032470,0x763a0622e208044e,
0x763b62b83416a3e8,0x763d3861058868dc,0x763d7279e88ad8cb,0x7640354f948466b5,0x7640744a30e51c20,0x76432d74d5025b54,0x764332568e60a0d0,0x7643a1a69b073b32,
0x7643dbbf7e09ab21,0x7645f062ebdc2580,0x76465fb2f882bfe2,0x764991f11c032470,0x764a0622e208044e,0x764a7a54a80ce42c,0x764d3861058868dc,0x764d7279e88ad8cb,
0x764ed18017489b23,0x7650354f948466b5,0x76519455c342290d,0x76532d74d5025b54,0x7655ea48c4264ea5,0x7656d3e4be879fc0,0x765991f11c032470,0x765a0622e208044e,
0x765d3861058868dc,0x765ed18017489b23,0x76606cf79ad7b3e6,0x76606f687786d6a4,0x76611eeb8ee5b7d0,0x7661569395390501,0x76619455c342290d,0x76630fcc2c555aad,
0x76632d74d5025b54,0x76648b4295688c4d,0x7665ea48c4264ea5,0x7666d3e4be879fc0,0x76678367d5e680ec,0x766991f11c032470,0x766a5de46db774e4,0x766d337f4c2a2360,
0x766d3861058868dc,0x766ed18017489b23,0x76711eeb8ee5b7d0,0x76719455c342290d,0x7671ce6ea64498fc,0x76730fcc2c555aad,0x76732d74d5025b54,0x7673f96826b6abc8,
0x7675ea48c4264ea5,0x7676420a4fd5bf3b,0x7676d3e4be879fc0,0x76778367d5e680ec,0x767991f11c032470,0x767a5de46db774e4,0x767d3861058868dc,0x76811eeb8ee5b7d0,
0x7681a28de06ce0b1,0x7681ce6ea64498fc,0x7682263031f40992,0x76828c29dace31cc,0x76830fcc2c555aad,0x7683c66b524997ab,0x76852c8d8f9cb5d5,0x7685ea48c4264ea5,
0x7686420a4fd5bf3b,0x7686d3e4be879fc0,0x76878367d5e680ec,0x768832eaed456218,0x7689a74547c337e6,0x768a5de46db774e4,0x768d3861058868dc,0x76904e1683d321e0,
0x7690684c68f17ad2,0x7690acf41e17ee48,0x76911eeb8ee5b7d0,0x7691a28de06ce0b1,0x7691ce6ea64498fc,0x7692b47c995b3c2e,0x7693c66b524997ab,0x7694a8eb3e158cf4,
0x7696420a4fd5bf3b,0x7696d3e4be879fc0,0x76978367d5e680ec,0x7697b76691331a00,0x7698f0a621cefae8,0x7699a74547c337e6,0x7699d3260d9af031,0x769a0294dabd5665,
0x769a5de46db774e4,0x76a00cfcd5f75c53,0x76a01ea7b6b0bbac,0x76a04e1683d321e0,0x76a0684c68f17ad2,0x76a0909f277e8534,0x76a15ef5b403f54c,0x76a1a28de06ce0b1,
0x76a2b47c995b3c2e,0x76a3c66b524997ab,0x76a4d85a0b37f328,0x76a6162989fe06f0,0x76a6d3e4be879fc0,0x76a78367d5e680ec,0x76a7b76691331a00,0x76a8f0a621cefae8,
0x76aa0294dabd5665,0x76aa5de46db774e4,0x76abcb22b99feee0,0x76ad7bf931f15441,0x76b00cfcd5f75c53,0x76b0684c68f17ad2,0x76b0909f277e8534,0x76b0d43753e77099,
0x76b15ef5b403f54c,0x76b2b47c995b3c2e,0x76b33bacf22d12f8,0x76b3536458be4612,0x76b3c66b524997ab,0x76b4d85a0b37f328,0x76b5d2915d951b8b,0x76b6162989fe06f0,
0x76b6d3e4be879fc0,0x76b8f0a621cefae8,0x76ba5de46db774e4,0x76bbcb22b99feee0,0x76bd7bf931f15441,0x76bf38ab5d8b532f,0x76c0909f277e8534,0x76c15ef5b403f54c,
0x76c1f201c01e65a3,0x76c2b47c995b3c2e,0x76c2e8123c7c9834,0x76c31ba7df9df43a,0x76c36b1bbf4f792c,0x76c3c66b524997ab,0x76c5d2915d951b8b,0x76c6162989fe06f0,
0x76c845e2af235777,0x76c8a132421d75f6,0x76c8f0a621cefae8,0x76c97f8b57ea756d,0x76ca5de46db774e4,0x76cbcb22b99feee0,0x76cf38ab5d8b532f,0x76d00b8239ac2953,
0x76d12b6010e29946,0x76d2e8123c7c9834,0x76d36b1bbf4f792c,0x76d3c66b524997ab,0x76d3ee2542225a24,0x76d6e48016837708,0x76d7ea931c2938f8,0x76d845e2af235777,
0x76d8a132421d75f6,0x76d97f8b57ea756d,0x76da5de46db774e4,0x76dfe36ed036f6a0,0x76e00b8239ac2953,0x76e12b6010e29946,0x76e2a68d7b1327b8,0x76e2e8123c7c9834,
0x76e3c66b524997ab,0x76e407f013b30827,0x76e6617693b09610,0x76e6e48016837708,0x76e97f8b57ea756d,0x76ea5de46db774e4,0x76ec5c1b5abae44e,0x76edd748c4eb72c0,
0x76ee398fe7099b7a,0x76f0c918eec4708c,0x76f0f0d2de9d3305,0x76f0fa3c7fd384e9,0x76f12b6010e29946,0x76f1efee551eeaba,0x76f2a68d7b1327b8,0x76f2e8123c7c9834,
0x76f3d6cc82a3f3ca,0x76f407f013b30827,0x76f6a2fb551a068c,0x76f6e48016837708,0x76f7a216cb9bbe41,0x76f97f8b57ea756d,0x76fdd748c4eb72c0,0x76fe398fe7099b7a,
0x76ffe36ed036f6a0,0x7700fa3c7fd384e9,0x77012b6010e29946,0x7702e8123c7c9834,0x7702f8736cd6f453,0x7703d6cc82a3f3ca,0x770407f013b30827,0x7704c586c8cb4f60,
0x7706a2fb551a068c,0x7706c3bdb5cebeca,0x7706e48016837708,0x7707a216cb9bbe41,0x7709082e34d6c7a2,0x7709f6e87afe2338,0x770dc232c3f5edaf,0x770e398fe7099b7a,
0x770e5a5247be53b8,0x770f284a2d30f710,0x771051bbcbb0c2c1,0x7710c918eec4708c,0x77110a9db02de108,0x7712e8123c7c9834,0x7712f8736cd6f453,0x7713d6cc82a3f3ca,
0x7714c586c8cb4f60,0x77154d451c39594a,0x77166f7d5bbd5db6,0x7716c3bdb5cebeca,0x7717a216cb9bbe41,0x7719082e34d6c7a2,0x7719f6e87afe2338,0x771dc232c3f5edaf,
0x771dd748c4eb72c0,0x771e5a5247be53b8,0x77210a9db02de108,0x77222cd5efb1e574,0x7722e8123c7c9834,0x77232bf166339d29,0x7723d6cc82a3f3ca,0x7724c586c8cb4f60,
0x77252324ef30a8c0,0x7725f82038a9afeb,0x77266f7d5bbd5db6,0x7727a216cb9bbe41,0x7729082e34d6c7a2,0x772d4ad5a0e23fe4,0x772dc232c3f5edaf,0x7730e07d8325307e,
0x77313e1ba98a89de,0x77322cd5efb1e574,0x7733d6cc82a3f3ca,0x7734c586c8cb4f60,0x77352324ef30a8c0,0x7735c9512577033b,0x7735f82038a9afeb,0x77366f7d5bbd5db6,
0x7739dd297e4fcecd,0x773d4ad5a0e23fe4,0x773dc232c3f5edaf,0x773fb4b766c8fd20,0x774027a189193f03,0x77403a514cded603,0x7740702f98fa401e,0x77408087e9aad90b,
0x7740e07d8325307e,0x77422383f84046c0,0x77428a7416173ed4,0x7743d6cc82a3f3ca,0x7744c586c8cb4f60,0x77452324ef30a8c0,0x7745c9512577033b,0x77466f7d5bbd5db6,
0x774b121a61432d6b,0x774bcfae2122de3e,0x774dc232c3f5edaf,0x774fb4b766c8fd20,0x77503a514cded603,0x77508087e9aad90b,0x7750e07d8325307e,0x77528a7416173ed4,
0x7753ee340c3d4a22,0x7754c586c8cb4f60,0x77552324ef30a8c0,0x7755c9512577033b,0x77572d111b9d0e89,0x7757eaa4db7cbf5c,0x77586db5c35d1853,0x775a6bee2afcd2f0,
0x775b121a61432d6b,0x775db67eff294283,0x775fe38679fba9d0,0x7760209250308198,0x77603a514cded603,0x7760e07d8325307e,0x7761789e8189e1ba,0x7761effba49d8f85,
0x77627ec0514a93a8,0x7763ee340c3d4a22,0x7764c586c8cb4f60,0x77652324ef30a8c0,0x776580c315960220,0x77686db5c35d1853,0x776b121a61432d6b,0x776c644cb03637f7,
0x776db67eff294283,0x776f08b14e1c4d0f,0x776fe38679fba9d0,0x7770209250308198,0x77703a514cded603,0x77704ab3f7d57d55,0x7770cc9868dd31a9,0x7770e07d8325307e,
0x7770e52c694f2ca4,0x77712c8e0257891c,0x77727ec0514a93a8,0x77734f0e2f35e9e0,0x7774c586c8cb4f60,0x77752324ef30a8c0,0x777580c315960220,0x777c644cb03637f7,
0x777db67eff294283,0x777f08b14e1c4d0f,0x777fb1ca7595d255,0x77803a514cded603,0x77808374dade03d6,0x7780e07d8325307e,0x77812c8e0257891c,0x7784c586c8cb4f60,
0x77852324ef30a8c0,0x778db67eff294283,0x778e5f9826a2c7c9,0x778f08b14e1c4d0f,0x778f5d3de1d90fb2,0x778fb1ca7595d255,0x77902ee847214133,0x779042cd61694008,
0x7790477c47933c2e,0x77908374dade03d6,0x7790934207b67e70,0x7790946d03f2d7e0,0x7792f17008d09080,0x779467e8a265f600,0x77952324ef30a8c0,0x779e5f9826a2c7c9,
0x779eb424ba5f8a6c,0x779f08b14e1c4d0f,0x779f5d3de1d90fb2,0x77a0032b84a94a7c,0x77a00f4f680c9732,0x77a02ee847214133,0x77a03b0c2a848de9,0x77a08374dade03d6,
0x77a52324ef30a8c0,0x77a5de613bfb5b80,0x77a75ba81f846a74,0x77a804c146fdefba,0x77ad61f26b6c7fe0,0x77ae0b0b92e60526,0x77aeb424ba5f8a6c,0x77af08b14e1c4d0f,
0x77af5d3de1d90fb2,0x77b0032b84a94a7c,0x77b02ee847214133,0x77b08374dade03d6,0x77b50bd0155b17ff,0x77b52324ef30a8c0,0x77b60975d0915fe8,0x77b7071b8bc7a7d1,
0x77b75ba81f846a74,0x77b804c146fdefba,0x77bb5c7300aebd13,0x77bc0fc01c797554,0x77bd61f26b6c7fe0,0x77beb424ba5f8a6c,0x77bf5d3de1d90fb2,0x77c0032b84a94a7c,
0x77c212dee3b84044,0x77c25d378323cfec,0x77c3af69d216da78,0x77c403f665d39d1b,0x77c5160409ac4afa,0x77c58588f8cda276,0x77c60975d0915fe8,0x77c7071b8bc7a7d1,
0x77c75ba81f846a74,0x77c819292fa055b0,0x77cb5c7300aebd13,0x77cd61f26b6c7fe0,0x77cd871ebb2247b4,0x77ceb424ba5f8a6c,0x77cf5d3de1d90fb2,0x77d0032b84a94a7c,
0x77d1555dd39c5508,0x77d184be17a34fd7,0x77d380098e0fdfa9,0x77d3af69d216da78,0x77d403f665d39d1b,0x77d58588f8cda276,0x77d75ba81f846a74,0x77db5c7300aebd13,
0x77dd871ebb2247b4,0x77df5d3de1d90fb2,0x77e0032b84a94a7c,0x77e087185c6d07ee,0x77e17227efc86bed,0x77e184be17a34fd7,0x77e28263d2d997c0,0x77e30f9bbe8ac727,
0x77e3af69d216da78,0x77e403f665d39d1b,0x77e58588f8cda276,0x77e5981f20a88660,0x77e75ba81f846a74,0x77e89b44469c9116,0x77e8adda6e777500,0x77eb5c7300aebd13,
0x77ed61f26b6c7fe0,0x77edd2603af19862,0x77f099ae8447ebd8,0x77f0e4f004173c86,0x77f184be17a34fd7,0x77f30f9bbe8ac727,0x77f445ecd1b57bd4,0x77f58588f8cda276,
0x77f75ba81f846a74,0x77f8e685c66be1c4,0x77f9abf499df9d6c,0x77fb07e66cf1fa70,0x77fdd2603af19862,0x780099ae8447ebd8,0x7800e4f004173c86,0x7801397c97d3ff29,
0x78015f1d57bba780,0x7802956e6ae65c2d,0x7803af69d216da78,0x7803d50a91fe82cf,0x7804c01a2559e6ce,0x78058588f8cda276,0x7809abf499df9d6c,0x780a0eac03997b40,
0x780a71636d535914,0x780b07e66cf1fa70,0x780bbf2a6a689ae7,0x780dd2603af19862,0x781099ae8447ebd8,0x7810e4f004173c86,0x7810f31ada1457b7,0x78115f1d57bba780,
0x7812248c2b2f6328,0x781240e1d729998a,0x7812956e6ae65c2d,0x7812ace454d0e953,0x781340f77367b611,0x7814691db0954f8d,0x7814dc6fd1541d30,0x78158588f8cda276,
0x7819abf499df9d6c,0x781a0eac03997b40,0x781b07e66cf1fa70,0x781bbf2a6a689ae7,0x782099ae8447ebd8,0x7820e4f004173c86,0x7820f0aaf90c8319,0x7820fc65ee01c9ac,
0x78215f1d57bba780,0x7822248c2b2f6328,0x7822956e6ae65c2d,0x7822ace454d0e953,0x7822d28514b891aa,0x782340f77367b611,0x7824691db0954f8d,0x78253b7f69823c17,
0x7825b6e4adaa9160,0x7829abf499df9d6c,0x782b07e66cf1fa70,0x782bbf2a6a689ae7,0x782deb0e15600fd7,0x782e1da1bac0e910,0x783099ae8447ebd8,0x7830f0aaf90c8319,
0x7830fc65ee01c9ac,0x78315f1d57bba780,0x7831cec7a6eeb636,0x7832ace454d0e953,0x7832d28514b891aa,0x783340f77367b611,0x78338b0102b31c70,0x7833c94f9d093c3c,
0x78353b7f69823c17,0x7835542d43f0b38c,0x7839abf499df9d6c,0x783aa93894ece06f,0x783deb0e15600fd7,0x783e1da1bac0e910,0x783f00ffeadbca4f,0x783fa87f61a86060,
0x7840492b823fed08,0x7840d183abe17333,0x7840fc65ee01c9ac,0x78415f1d57bba780,0x7841cec7a6eeb636,0x7842b5fe88a9d8d5,0x7842f6ede41c4fb2,0x784340f77367b611,
0x78453b7f69823c17,0x7845542d43f0b38c,0x784620158a2107a5,0x784920fbaf21c030,0x7849493d3025bf98,0x7849abf499df9d6c,0x784aa93894ece06f,0x784f00ffeadbca4f,
0x784f8bf8d599a78b,0x784fa87f61a86060,0x7851a00cb32e1e5d,0x7852b5fe88a9d8d5,0x7852fb7afe08c773,0x7853284998f93e9c,0x785340f77367b611,0x7855542d43f0b38c,
0x78578010eee8287c,0x7857f25bff378e43,0x785920fbaf21c030,0x7859abf499df9d6c,0x785aa93894ece06f,0x785f8bf8d599a78b,0x7860cf9753115283,0x7861a00cb32e1e5d,
0x78627082134aea37,0x7862fb7afe08c773,0x786340f77367b611,0x78666a1f196c6e04,0x78678010eee8287c,0x78689602c463e2f4,0x786920fbaf21c030,0x786943b9e9d1377f,
0x7869abf499df9d6c,0x786f8bf8d599a78b,0x78720847633c844a,0x7872d8bcc3595024,0x7872fb7afe08c773,0x787340f77367b611,0x78761f9a73ecff79,0x78780b09d9a605b8,
0x787920fbaf21c030,0x787943b9e9d1377f,0x787966782480aece,0x7879abf499df9d6c,0x788137d2031fb870,0x7881696b4316ab70,0x78820847633c844a,0x7882d8bcc3595024,
0x7882fb7afe08c773,0x7884167503a501d8,0x78848d8ab8fae376,0x788509a89e714501,0x7885fcdc393d882a,0x78861f9a73ecff79,0x7886f518042a4b40,0x78880b09d9a605b8,
0x788920fbaf21c030,0x788966782480aece,0x788faeb710491eda,0x7890e37a88794e21,0x789137d2031fb870,0x789146ad08673421,0x7891696b4316ab70,0x7892300dce0c7b86,
0x7892a72383625d24,0x7892d8bcc3595024,0x7892fb7afe08c773,0x78948d8ab8fae376,0x7894c9345932d650,0x78961f9a73ecff79,0x7896f518042a4b40,0x7897b1aa2edf1b7c,
0x789920fbaf21c030,0x78a0332fe835389a,0x78a146ad08673421,0x78a1696b4316ab70,0x78a2d8bcc3595024,0x78a48d8ab8fae376,0x78a567f1b3cbad1f,0x78a61f9a73ecff79,
0x78a7b1aa2edf1b7c,0x78a920fbaf21c030,0x78aa1e20e4a20128,0x78aa79f544b2aa55,0x78ac8a979a64e6d4,0x78aed45015785531,0x78b0332fe835389a,0x78b0b1c282f55916,
0x78b146ad08673421,0x78b1696b4316ab70,0x78b1c53fa327549d,0x78b2bc31b0a8b735,0x78b2d8bcc3595024,0x78b37a0d98c8e7ef,0x78b48d8ab8fae376,0x78b5c3c613dc564c,
0x78b64258ae9c76c8,0x78b67b6ed3fda8a6,0x78b7b1aa2edf1b7c,0x78b84cc7dc4fd4e7,0x78b920fbaf21c030,0x78ba79f544b2aa55,0x78bdf9e91aa78b88,0x78bed45015785531,
0x78c0332fe835389a,0x78c06612e5978c18,0x78c146ad08673421,0x78c15d04f318eeb0,0x78c1696b4316ab70,0x78c1c53fa327549d,0x78c2bc31b0a8b735,0x78c2d8bcc3595024,
0x78c39698ab7980de,0x78c67b6ed3fda8a6,0x78c7b1aa2edf1b7c,0x78c84cc7dc4fd4e7,0x78c920fbaf21c030,0x78c9635e90813f9e,0x78ca79f544b2aa55,0x78cdf9e91aa78b88,
0x78cede41b02c5300,0x78d0332fe835389a,0x78d052d48ee540b9,0x78d05c214ae38e49,0x78d06612e5978c18,0x78d0e18bec583d64,0x78d0f73ef85447b4,0x78d1696b4316ab70,
0x78d1c53fa327549d,0x78d2605d50980e08,0x78d363b5ae172d60,0x78d50903bfbb94c2,0x78d6f874a4be118a,0x78d7b1aa2edf1b7c,0x78d84cc7dc4fd4e7,0x78d9635e90813f9e,
0x78dc0c04ffa4c658,0x78dce4df3075d869,0x78dede41b02c5300,0x78e0332fe835389a,0x78e052d48ee540b9,0x78e0ec657256428c,0x78e14839d266ebb9,0x78e1696b4316ab70,
0x78e187831fc6fbf7,0x78e2605d50980e08,0x78e29c8d09f8af16,0x78e3574f5e1970a0,0x78e50903bfbb94c2,0x78e54533791c35d0,0x78e6f874a4be118a,0x78e84cc7dc4fd4e7,
0x78ea98d38662d6a8,0x78ec0c04ffa4c658,0x78ece4df3075d869,0x78f01451a6850c47,0x78f0332fe835389a,0x78f0ec657256428c,0x78f168a4de16cfa4,0x78f187831fc6fbf7,
0x78f221da6837d996,0x78f2605d50980e08,0x78f3574f5e1970a0,0x78f50903bfbb94c2,0x78f56601b74c07a1,0x78f73631281e6a30,0x78f84cc7dc4fd4e7,0x78fa98d38662d6a8,
0x78fc0c04ffa4c658,0x78fd7f99ab66a3ee,0x7900332fe835389a,0x790168a4de16cfa4,0x79044f6b031a9cea,0x7904cb473c5b3c1c,0x79056601b74c07a1,0x79073631281e6a30,
0x79084cc7dc4fd4e7,0x7909fe190b720b23,0x790a98d38662d6a8,0x790d7f99ab66a3ee,0x7910332fe835389a,0x791168a4de16cfa4,0x791212e7467faccc,0x7912bd29aee889f4,
0x7912dc07f098b647,0x7913f29ea4ca20fe,0x7914cb473c5b3c1c,0x79156601b74c07a1,0x79167c986b7d7258,0x7916d964c9cdee44,0x79173631281e6a30,0x79184cc7dc4fd4e7,
0x7919fe190b720b23,0x791a98d38662d6a8,0x791d7f99ab66a3ee,0x791dfb75e4a74320,0x79209f8433fdc629,0x7920dd72509e15c2,0x7921230b975a72b3,0x792168a4de16cfa4,
0x792212e7467faccc,0x7922bd29aee889f4,0x7922dc07f098b647,0x7923f29ea4ca20fe,0x79256601b74c07a1,0x7926d964c9cdee44,0x79273631281e6a30,0x792a98d38662d6a8,
0x792b1c5ae9bf8332,0x792d7f99ab66a3ee,0x792dfb75e4a74320,0x792e6f755a8bde07,0x79309f8433fdc629,0x7930b6b74b91e524,0x7930dd72509e15c2,0x7931230b975a72b3,
0x793168a4de16cfa4,0x7931cd4dffc34fdb,0x793212e7467faccc,0x7932dc07f098b647,0x793319f60d3905e0,0x7933f29ea4ca20fe,0x793697a1181f97ff,0x7936d964c9cdee44,
0x79373631281e6a30,0x793a98d38662d6a8,0x793b1c5ae9bf8332,0x793dfb75e4a74320,0x793e6f755a8bde07,0x794014833fc5033a,0x794080d78b8d90c9,0x79409f8433fdc629,
0x7940b6b74b91e524,0x7940dd72509e15c2,0x79410bd87fc653b8,0x7941cd4dffc34fdb,0x7941e856ac657582,0x794212e7467faccc,0x794319f60d3905e0,0x79432d538fbf1e2f,
0x79439b92a60eaf14,0x7943f29ea4ca20fe,0x794697a1181f97ff,0x7947877cc744d218,0x794a98d38662d6a8,0x794b1512f22363c0,0x794dfb75e4a74320,0x794e6f755a8bde07,
0x794f08450af5a636,0x794f5f5109b11820,0x79501de79b281cf5,0x7950523fc3255be0,0x79505dc0824f6fe4,0x79509f8433fdc629,0x7950a94bc1e0cdca,0x7950b6b74b91e524,
0x7951e7614721f3d7,0x795212e7467faccc,0x7953180b42b2028a,0x795319f60d3905e0,0x79539b92a60eaf14,0x7953f29ea4ca20fe,0x795476260826cd88,0x7955c2ffaedc7a80,
0x7955d25603149530,0x795697a1181f97ff,0x7957877cc744d218,0x795a98d38662d6a8,0x795d124ffa5a94b4,0x795f08450af5a636,0x795f5f5109b11820,0x79601b076b5d97f4,
0x79601de79b281cf5,0x79605dc0824f6fe4,0x7960b6b74b91e524,0x7960df5d1b251918,0x7961a59d95739d92,0x7961bae5e280b937,0x7961e7614721f3d7,0x796212e7467faccc,
0x796319f60d3905e0,0x79639b92a60eaf14,0x796476260826cd88,0x7965d25603149530,0x796697a1181f97ff,0x7967929ba06d20c0,0x79688ab5f8f02480,0x796c1755720d0bf3,
0x796d124ffa5a94b4,0x796f5f5109b11820,0x79704e07a1d67b93,0x7970aaa30d2614d1,0x7971a59d95739d92,0x7971b0bc6e9bec3a,0x7971e7614721f3d7,0x797212e7467faccc,
0x797476260826cd88,0x7974d2c1737666c6,0x79753a7bb7ee4eac,0x7975cdbbfbc3ef87,0x797697a1181f97ff,0x7977929ba06d20c0,0x797c1755720d0bf3,0x797c4dfa4a931390,
0x797d124ffa5a94b4,0x797f5f5109b11820,0x79804e07a1d67b93,0x79807f1d0dc85bdc,0x7981b0bc6e9bec3a,0x798212e7467faccc,0x79833ef73abf15d6,0x7983759c13451d73,
0x7984d2c1737666c6,0x7985cdbbfbc3ef87,0x7985fed167b5cfd0,0x798697a1181f97ff,0x7987929ba06d20c0,0x798ab7685b91aef6,0x798c4dfa4a931390,0x798d124ffa5a94b4,
0x798f3c222d319a29,0x79904e07a1d67b93,0x7991adf4b851d890,0x7991b0bc6e9bec3a,0x799212e7467faccc,0x7992dccc62db5544,0x7993759c13451d73,0x7994d2c1737666c6,
0x799601991dffe37a,0x799697a1181f97ff,0x7997929ba06d20c0,0x79992665d92471b0,0x799ab7685b91aef6,0x799c4dfa4a931390,0x799da9bbcf9f530e,0x799f3c222d319a29,
0x79a04e07a1d67b93,0x79a1adf4b851d890,0x79a4a0482c5f7ca8,0x79a4d2c1737666c6,0x79a66527d108ade1,0x79a7929ba06d20c0,0x79aab7685b91aef6,0x79ac309215988102,
0x79ada9bbcf9f530e,0x79addc3516b63d2c,0x79af3c222d319a29,0x79b034cafe4b0684,0x79b096f5d62ec716,0x79b1adf4b851d890,0x79b1dda6491eaf04,0x79b46b072efe7ee0,
0x79b4d2c1737666c6,0x79b7929ba06d20c0,0x79b7c514e7840ade,0x79b93e3ea18adcea,0x79bab7685b91aef6,0x79bc309215988102,0x79bced26f29bea08,0x79bda9bbcf9f530e,
0x79bf3c222d319a29,0x79c02f3b91b6df30,0x79c034cafe4b0684,0x79c096f5d62ec716,0x79c0b95727a35e18,0x79c0f15fdb4e6f8a,0x79c13a4e0fa6bb0d,0x79c14372bd8fdd00,
0x79c46b072efe7ee0,0x79c7929ba06d20c0,0x79c93e3ea18adcea,0x79cab7685b91aef6,0x79cc309215988102,0x79cc8edc841a3585,0x79cced26f29bea08,0x79d016cc79365116,
0x79d02f3b91b6df30,0x79d034cafe4b0684,0x79d0429da0a11b7b,0x79d074495cad1ea4,0x79d093156cccbb07,0x79d14372bd8fdd00,0x79d55392c7733b03,0x79d5e893b5653280,
0x79d7929ba06d20c0,0x79dab7685b91aef6,0x79db73fd389517fc,0x79dc309215988102,0x79dc8edc841a3585,0x79e1b5ede91fbdc2,0x79e2613f536596eb,0x79e37c1e9eeab474,
0x79e496fdea6fd1fd,0x79e55392c7733b03,0x79e5b1dd35f4ef86,0x79e881a9c48773e4,0x79e9fad37e8e45f0,0x79eb73fd389517fc,0x79ec309215988102,0x79eced26f29bea08,
0x79efce36f3ebfe43,0x79f03cc42f18ebb6,0x79f1b5ede91fbdc2,0x79f2143857a17245,0x79f37c1e9eeab474,0x79f496fdea6fd1fd,0x79f4f54858f18680,0x79f5b1dd35f4ef86,
0x79f6f33fff5c1f62,0x79f9fad37e8e45f0,0x79fb73fd389517fc,0x79fc309215988102,0x79fced26f29bea08,0x79ff6fec856a49c0,0x79ffce36f3ebfe43,0x7a01b5ede91fbdc2,
0x7a01edb4d9bf5ff2,0x7a02143857a17245,0x7a03ebac8029f8d4,0x7a045496f43dee92,0x7a04f54858f18680,0x7a05b1dd35f4ef86,0x7a06f33fff5c1f62,0x7a0a329a6f2de820,
0x7a0a90e4ddaf9ca3,0x7a0c309215988102,0x7a0ced26f29bea08,0x7a0fce36f3ebfe43,0x7a0fdf7a66a98e20,0x7a11b5ede91fbdc2,0x7a12143857a17245,0x7a12569f4dd355b0,
0x7a12b4e9bc550a33,0x7a145496f43dee92,0x7a14f54858f18680,0x7a15a3eb79cd06fa,0x7a15b1dd35f4ef86,0x7a16f33fff5c1f62,0x7a18f137a5c6b844,0x7a1a90e4ddaf9ca3,
0x7a1ced26f29bea08,0x7a1fce36f3ebfe43,0x7a21074ac8443d48,0x7a21b5ede91fbdc2,0x7a22569f4dd355b0,0x7a245496f43dee92,0x7a24f54858f18680,0x7a24fc4137057ac6,
0x7a25a3eb79cd06fa,0x7a26a2e74d02536b,0x7a26f33fff5c1f62,0x7a2a90e4ddaf9ca3,0x7a2e2e89bc0319e4,0x7a2e7ee26e5ce5db,0x7a2fce36f3ebfe43,0x7a305fa0857cb114,
0x7a31074ac8443d48,0x7a31b5ede91fbdc2,0x7a3305426eaed62a,0x7a33acecb176625e,0x7a345496f43dee92,0x7a34f54858f18680,0x7a34fc4137057ac6,0x7a35a3eb79cd06fa,
0x7a3a90e4ddaf9ca3,0x7a3c87e3a606413f,0x7a3d83630a31938d,0x7a3e7ee26e5ce5db,0x7a3f7a61d2883829,0x7a3fce36f3ebfe43,0x7a4001ab87e3a235,0x7a400bcb6418eafa,
0x7a40367632d642b8,0x7a4052043a3d6e2c,0x7a405fa0857cb114,0x7a4083527626148c,0x7a433710d3f47500,0x7a43acecb176625e,0x7a44162c9672fdc0,0x7a445496f43dee92,
0x7a44f54858f18680,0x7a44fc4137057ac6,0x7a45262bc7b75dd3,0x7a4d83630a31938d,0x7a4e7ee26e5ce5db,0x7a4f7a61d2883829,0x7a4fa44c633a1b36,0x7a4fce36f3ebfe43,
0x7a500bcb6418eafa,0x7a5035b5f4cace07,0x7a545496f43dee92,0x7a54a86c15a1b4ac,0x7a54f54858f18680,0x7a54fc4137057ac6,0x7a55262bc7b75dd3,0x7a5a5046cd1fcafe,
0x7a5e7ee26e5ce5db,0x7a5efca220728f02,0x7a5f7a61d2883829,0x7a5fa44c633a1b36,0x7a63591790129c44,0x7a6400c1d2da2878,0x7a64a86c15a1b4ac,0x7a64fc4137057ac6,
0x7a655016586940e0,0x7a677c597160bfd5,0x7a682f5d74174355,0x7a6900f24790b296,0x7a69d2871b0a21d7,0x7a6a5046cd1fcafe,0x7a6aa41bee839118,0x7a6cfa49982cf31a,
0x7a6f507741d6551c,0x7a6f7a61d2883829,0x7a6fa44c633a1b36,0x7a716218c7bbf7a8,0x7a7180a9987ee369,0x7a72a6138d5c18c4,0x7a738e5be0b3769d,0x7a7400c1d2da2878,
0x7a74fc4137057ac6,0x7a755016586940e0,0x7a777c597160bfd5,0x7a7a5046cd1fcafe,0x7a7ba54832a65f0c,0x7a7cfa49982cf31a,0x7a7f507741d6551c,0x7a7f7a61d2883829,
0x7a805b3fa3a1ae0e,0x7a80d12204d25a0c,0x7a81511227d584b6,0x7a81865678765f0f,0x7a81a863b84344f3,0x7a82a6138d5c18c4,0x7a82b16d4d4b1010,0x7a84fc4137057ac6,
0x7a855016586940e0,0x7a87a6440212a2e2,0x7a8a5046cd1fcafe,0x7a8ae8366e1d5ce0,0x7a8afac77fe31505,0x7a8ba54832a65f0c,0x7a8f7a61d2883829,0x7a90a69175123aaf,
0x7a91511227d584b6,0x7a94117573397d42,0x7a94bbf625fcc749,0x7a955016586940e0,0x7a97a6440212a2e2,0x7a98fb45679936f0,0x7a9a5046cd1fcafe,0x7a9afac77fe31505,
0x7a9ba54832a65f0c,0x7aa0a69175123aaf,0x7aa0bcf1f5690b1f,0x7aa1511227d584b6,0x7aa2bc740db2e934,0x7aa2f18ede903479,0x7aa3a73fd17ee6b8,0x7aa4117573397d42,
0x7aa4bbf625fcc749,0x7aa55016586940e0,0x7aa651429c8c0ed4,0x7aa6bb783e46a55e,0x7aa730de202ca420,0x7aa8910fc5dea066,0x7aa8fb45679936f0,0x7aaa5046cd1fcafe,
0x7aaba54832a65f0c,0x7aae1a302cd63be3,0x7aae4f4afdb38728,0x7ab01da182d12950,0x7ab13257d74f09e1,0x7ab1e808ca3dbc20,0x7ab2bc740db2e934,0x7ab2f18ede903479,
0x7ab3a73fd17ee6b8,0x7ab4117573397d42,0x7ab4bbf625fcc749,0x7ab5dbdcbaa61012,0x7ab6bb783e46a55e,0x7ab730de202ca420,0x7ab8fb45679936f0,0x7abba54832a65f0c,
0x7abca67476c92d00,0x7abe1a302cd63be3,0x7abe4f4afdb38728,0x7abfa9e4834fcf52,0x7ac01da182d12950,0x7ac0a69175123aaf,0x7ac0f20cc6465664,0x7ac102d5268772b8,
0x7ac12cbfb73955c5,0x7ac1511227d584b6,0x7ac164a698217b18,0x7ac2bc740db2e934,0x7ac4117573397d42,0x7ac4bbf625fcc749,0x7ac55016586940e0,0x7ac730de202ca420,
0x7ac8fb45679936f0,0x7ac96b1329698196,0x7ac9ddacfb44a64a,0x7acba54832a65f0c,0x7acca67476c92d00,0x7ace1a302cd63be3,0x7acfa9e4834fcf52,0x7ad00cd922900cfc,
0x7ad0b48dc5487cf5,0x7ad0f20cc6465664,0x7ad12cbfb73955c5,0x7ad164a698217b18,0x7ad1d1a849e6ebb0,0x7ad2b9a7fda80f26,0x7ad2bc740db2e934,0x7ad4117573397d42,
0x7ad52e8ff7d7ebfd,0x7ad56676d8c01150,0x7ad6f791373f11c6,0x7ad730de202ca420,0x7ad8fb45679936f0,0x7ad9ddacfb44a64a,0x7ade1a302cd63be3,0x7ae00cd922900cfc,
0x7ae0f20cc6465664,0x7ae12cbfb73955c5,0x7ae16340901c0e11,0x7ae164a698217b18,0x7ae2bc740db2e934,0x7ae4117573397d42,0x7ae44ac25c270f9c,0x7ae52e8ff7d7ebfd,
0x7ae56676d8c01150,0x7ae567dce0c57e57,0x7ae6f791373f11c6,0x7ae730de202ca420,0x7ae8fb45679936f0,0x7aec8a7bd65ca874,0x7aee1a302cd63be3,0x7aef8d3e0ed90625,
0x7af00cd922900cfc,0x7af12b59af33e8be,0x7af16340901c0e11,0x7af164a698217b18,0x7af2d7b47a24455a,0x7af4117573397d42,0x7af4cafc643ae263,0x7af56676d8c01150,
0x7af567dce0c57e57,0x7af58483553c4784,0x7af730de202ca420,0x7af9c10686cddd1d,0x7afc8a7bd65ca874,0x7afe1a302cd63be3,0x7afed3b71dd7a104,0x7aff8d3e0ed90625,
0x7b00ab1fa72015f7,0x7b012b59af33e8be,0x7b0164a698217b18,0x7b029e679136b300,0x7b04117573397d42,0x7b04cafc643ae263,0x7b058483553c4784,0x7b0730de202ca420,
0x7b09c10686cddd1d,0x7b0bed9b59d20c80,0x7b0e1a302cd63be3,0x7b0ed3b71dd7a104,0x7b1006bc0b766c76,0x7b1023627fed35a3,0x7b129e679136b300,0x7b133b480dc14ef4,
0x7b13a65ec07d661b,0x7b14117573397d42,0x7b14cafc643ae263,0x7b158483553c4784,0x7b171ec95661b8c3,0x7b17460175845fc0,0x7b179471b3c9adba,0x7b19a460125713f0,
0x7b1c7fea2bb0caa4,0x7b1e1a302cd63be3,0x7b1ed3b71dd7a104,0x7b1f70979a623cf8,0x7b2006bc0b766c76,0x7b2023627fed35a3,0x7b204a9a9f0fdca0,0x7b20ae2e32ace63a,
0x7b218eed42d0f258,0x7b21a1020c9bddb5,0x7b224ff752f16506,0x7b229e679136b300,0x7b255d4b3619a087,0x7b258483553c4784,0x7b271ec95661b8c3,0x7b286a9f1941dc08,
0x7b29a460125713f0,0x7b2c17e2048183c0,0x7b2c7fea2bb0caa4,0x7b2da9d0a4c435d4,0x7b2ed3b71dd7a104,0x7b3023627fed35a3,0x7b304a9a9f0fdca0,0x7b30dce970ee9ac4,
0x7b317481182347d0,0x7b329e679136b300,0x7b33a115eb277733,0x7b351423cd2a4175,0x7b358483553c4784,0x7b3689d619d8032b,0x7b371ec95661b8c3,0x7b3a2c1d3989f444,
0x7b3da9d0a4c435d4,0x7b3e3ec3e14deb6c,0x7b3ed3b71dd7a104,0x7b41e23c358a566b,0x7b43a115eb277733,0x7b455fefa0c497fb,0x7b4689d619d8032b,0x7b471ec95661b8c3,
0x7b47d85047631de4,0x7b4a2c1d3989f444,0x7b4c7fea2bb0caa4,0x7b4da9d0a4c435d4,0x7b4e3ec3e14deb6c,0x7b4ed3b71dd7a104,0x7b50002100cb01d4,0x7b504a9a9f0fdca0,
0x7b529e679136b300,0x7b548082c5f60797,0x7b555fefa0c497fb,0x7b563f5c7b93285f,0x7b5689d619d8032b,0x7b571ec95661b8c3,0x7b5b5603b29d5f74,0x7b5c7fea2bb0caa4,
0x7b5da9d0a4c435d4,0x7b5df44a430910a0,0x7b5e1987122b7e06,0x7b5e3ec3e14deb6c,0x7b5ed3b71dd7a104,0x7b655fefa0c497fb,0x7b65cfa60e2be02d,0x7b663f5c7b93285f,
0x7b6689d619d8032b,0x7b669c74816939de,0x7b66af12e8fa7091,0x7b6c7fea2bb0caa4,0x7b6d14dd683a803c,0x7b6da9d0a4c435d4,0x7b6df44a430910a0,0x7b6e1987122b7e06,
0x7b6e3ec3e14deb6c,0x7b70002100cb01d4,0x7b7012bf685c3887,0x7b729e679136b300,0x7b76078144df8446,0x7b763f5c7b93285f,0x7b767737b246cc78,0x7b769c74816939de,
0x7b76af12e8fa7091,0x7b7a5afdc9ca5bf2,0x7b7d5f57067f5b08,0x7b7da9d0a4c435d4,0x7b7df44a430910a0,0x7b7e1987122b7e06,0x7b7e3ec3e14deb6c,0x7b81fe7e5e398766,
0x7b82b8ae69e5aa64,0x7b8315c66fbbbbe3,0x7b8597cad7783c14,0x7b867737b246cc78,0x7b869c74816939de,0x7b86af12e8fa7091,0x7b86e6ee1fae14aa,0x7b8a5afdc9ca5bf2,
0x7b8c3a426dfaecfc,0x7b8cca63c9f5a570,0x7b8df44a430910a0,0x7b8e1987122b7e06,0x7b8e3ec3e14deb6c,0x7b8e893d7f92c638,0x7b90d969c5b5195a,0x7b91444e528d6468,
0x7b92b8ae69e5aa64,0x7b92ddeb390817ca,0x7b92fe56279b880c,0x7b969c74816939de,0x7b9a5afdc9ca5bf2,0x7b9ba07d50e23a40,0x7b9c3a426dfaecfc,0x7b9c4ce0d58c23af,
0x7b9d29e4c0133581,0x7b9df44a430910a0,0x7b9e1987122b7e06,0x7ba0d969c5b5195a,0x7ba1c90c17cd61df,0x7ba61b5424947a42,0x7ba7fa98c8c50b4c,0x7ba87bb92599cae8,
0x7baa5afdc9ca5bf2,0x7bac3a426dfaecfc,0x7bad29e4c0133581,0x7badf44a430910a0,0x7bae1987122b7e06,0x7baff8cbb65c0f10,0x7bb0d969c5b5195a,0x7bb1c90c17cd61df,
0x7bb25ccadc33582e,0x7bb4bd2fdd38a8d4,0x7bb52bb1d27c31bd,0x7bb61b5424947a42,0x7bb7fa98c8c50b4c,0x7bb87bb92599cae8,0x7bb9ec7bd486d309,0x7bba1a6d9b5ffc24,
0x7bbc3a426dfaecfc,0x7bbdf44a430910a0,0x7bbe1987122b7e06,0x7bbff8cbb65c0f10,0x7bc25ccadc33582e,0x7bc3fb7f51f9896a,0x7bc52bb1d27c31bd,0x7bc56c4200e6918b,
0x7bc61b5424947a42,0x7bc7fa98c8c50b4c,0x7bc81ae0dffa3b33,0x7bc87bb92599cae8,0x7bca1a6d9b5ffc24,0x7bcc3a426dfaecfc,0x7bce1987122b7e06,0x7bcff8cbb65c0f10,
0x7bd0fea694d786c0,0x7bd1944579223c2a,0x7bd1fbf29693c879,0x7bd20e90fe24ff2c,0x7bd21c3aadc8f860,0x7bd3fb7f51f9896a,0x7bd52bb1d27c31bd,0x7bd61b5424947a42,
0x7bd81ae0dffa3b33,0x7bda1a6d9b5ffc24,0x7bdb2a5804ad7490,0x7bdc3a426dfaecfc,0x7bdea17c46d23a3c,0x7bdff8cbb65c0f10,0x7be1944579223c2a,0x7be1b48d90576c11,
0x7be1fbf29693c879,0x7be21c3aadc8f860,0x7be393d23487fd1b,0x7be3fb7f51f9896a,0x7be43c0f8063e938,0x7be5d7598a411c27,0x7be6a349593b3678,0x7be81ae0dffa3b33,
0x7bea1a6d9b5ffc24,0x7beea17c46d23a3c,0x7beff8cbb65c0f10,0x7bf10c50447b7ff4,0x7bf1944579223c2a,0x7bf21c3aadc8f860,0x7bf393d23487fd1b,0x7bf45fc20382176c,
0x7bf54f64559a5ff1,0x7bf5d7598a411c27,0x7bf6f91d351dabad,0x7bfa1a6d9b5ffc24,0x7bfa5e6835b35a3f,0x7bfd7fb89bf5aab6,0x7bfea17c46d23a3c,0x7c002e8733f24e89,
0x7c0075ec3a2eaaf1,0x7c00fa7702ec68da,0x7c010c50447b7ff4,0x7c0153b54ab7dc5c,0x7c021c3aadc8f860,0x7c0393d23487fd1b,0x7c054f64559a5ff1,0x7c05935eefedbe0c,
0x7c06683b5faf63ea,0x7c06f91d351dabad,0x7c0a1a6d9b5ffc24,0x7c0bb92211262d60,0x7c0d7fb89bf5aab6,0x7c0e109a7163f279,0x7c0ea17c46d23a3c,0x7c11e12cb43d25d2,
0x7c12dc7cc18c4084,0x7c1393d23487fd1b,0x7c154677b4d2d464,0x7c16683b5faf63ea,0x7c16f91d351dabad,0x7c17d6e645a6dd18,0x7c1a1a6d9b5ffc24,0x7c1c5df4f1191b30,
0x7c1d7fb89bf5aab6,0x7c1e109a7163f279,0x7c1ea17c46d23a3c,0x7c207281ce45aca4,0x7c20e5dca6ee0b20,0x7c21bab916afb0fe,0x7c22dc7cc18c4084,0x7c234fd79a349f00,
0x7c248f2241d717cd,0x7c24a25c109dd237,0x7c254677b4d2d464,0x7c26683b5faf63ea,0x7c26f91d351dabad,0x7c2c5df4f1191b30,0x7c2e109a7163f279,0x7c2ea17c46d23a3c,
0x7c31a77f47e8f694,0x7c31bab916afb0fe,0x7c32dc7cc18c4084,0x7c33809865c142b1,0x7c34a25c109dd237,0x7c36683b5faf63ea,0x7c36f91d351dabad,0x7c3789ff0a8bf370,
0x7c39597b4100e258,0x7c3c4abb225260c6,0x7c3c5df4f1191b30,0x7c3e109a7163f279,0x7c3ea17c46d23a3c,0x7c405f47ff7ef23a,0x7c4163dcd0e3814d,0x7c418aa891bedef5,
0x7c41a77f47e8f694,0x7c41bab916afb0fe,0x7c42b60923fecbb0,0x7c42dc7cc18c4084,0x7c43809865c142b1,0x7c4498bf293a7502,0x7c44a25c109dd237,0x7c4789ff0a8bf370,
0x7c47939bf1ef50a5,0x7c49597b4100e258,0x7c4c5df4f1191b30,0x7c4e109a7163f279,0x7c50387c3ea39492,0x7c5163dcd0e3814d,0x7c51bab916afb0fe,0x7c52dc7cc18c4084,
0x7c5376fb7e5de57c,0x7c53809865c142b1,0x7c561afc0146916e,0x7c57939bf1ef50a5,0x7c57ba3ba123b9e3,0x7c57e0db50582321,0x7c59597b4100e258,0x7c59f3f9fdd28750,
0x7c5c5df4f1191b30,0x7c5e109a7163f279,0x7c5fd679c075842c,0x7c60387c3ea39492,0x7c6163dcd0e3814d,0x7c61d7bbde80bd07,0x7c628f3d63236e08,0x7c62dc7cc18c4084,
0x7c63031c70c0a9c2,0x7c648f0c39039d98,0x7c65a71cf3a955b4,0x7c661afc0146916e,0x7c67939bf1ef50a5,0x7c67ba3ba123b9e3,0x7c68befc842f3d60,0x7c69597b4100e258,
0x7c69f3f9fdd28750,0x7c70387c3ea39492,0x7c71034d9ae07a32,0x7c7163dcd0e3814d,0x7c71d7bbde80bd07,0x7c728f3d63236e08,0x7c73031c70c0a9c2,0x7c748f0c39039d98,
0x7c761afc0146916e,0x7c762e4bd8e0c60d,0x7c78befc842f3d60,0x7c79597b4100e258,0x7c79f3f9fdd28750,0x7c7bab62ed655019,0x7c7c715ad186ca04,0x7c7ed69255856c64,
0x7c80387c3ea39492,0x7c8163dcd0e3814d,0x7c81d7bbde80bd07,0x7c83031c70c0a9c2,0x7c83b5c47d47ef0e,0x7c848f0c39039d98,0x7c8555041d251783,0x7c862e4bd8e0c60d,
0x7c86879fdf2468b3,0x7c87a6ebc9898544,0x7c888033854533ce,0x7c89597b4100e258,0x7c89f3f9fdd28750,0x7c8bab62ed655019,0x7c8c715ad186ca04,0x7c8ed69255856c64,
0x7c8f893a620cb1b0,0x7c9163dcd0e3814d,0x7c91bd30d72723f3,0x7c93031c70c0a9c2,0x7c93b5c47d47ef0e,0x7c948f0c39039d98,0x7c962e4bd8e0c60d,0x7c96879fdf2468b3,
0x7c988033854533ce,0x7c9919816644dc66,0x7c99597b4100e258,0x7c99b2cf474484fe,0x7c9bab62ed655019,0x7c9f893a620cb1b0,0x7ca03d55b6bf0047,0x7ca1034d9ae07a32,
0x7ca163dcd0e3814d,0x7ca1bd30d72723f3,0x7ca1fd2ab1e329e5,0x7ca3b5c47d47ef0e,0x7ca3f5be5803f500,0x7ca48f0c39039d98,0x7ca6879fdf2468b3,0x7ca8befc842f3d60,
0x7ca919816644dc66,0x7cadf09d8405ef80,0x7caf893a620cb1b0,0x7cb18a3049236b73,0x7cb1fd2ab1e329e5,0x7cb229d4b504fb38,0x7cb35c7077044c68,0x7cb3f5be5803f500,
0x7cb46f0f4ba59a9f,0x7cb48f0c39039d98,0x7cb63af8eea49467,0x7cb6879fdf2468b3,0x7cb8338c94c55f82,0x7cb919816644dc66,0x7cbda3f693861b34,0x7cbdf09d8405ef80,
0x7cc18a3049236b73,0x7cc1fd2ab1e329e5,0x7cc3f5be5803f500,0x7cc408e81423ea13,0x7cc48f0c39039d98,0x7cc6879fdf2468b3,0x7cc6adf3576452d9,0x7cc8f32dee04f240,
0x7cc919816644dc66,0x7cce3d447485c3cc,0x7cd04ad463a32c23,0x7cd06abe43440f56,0x7cd0f0e26823c2db,0x7cd177068d037660,0x7cd18a3049236b73,0x7cd2c3229604a3d0,
0x7cd2c98c2ea3aac3,0x7cd35c7077044c68,0x7cd3f5be5803f500,0x7cd408e81423ea13,0x7cd919816644dc66,0x7cde16f0fc45d9a6,0x7ce037aaa7833710,0x7ce04ad463a32c23,
0x7ce06abe43440f56,0x7ce0777e66c4fd76,0x7ce177068d037660,0x7ce18a3049236b73,0x7ce19086d40552a0,0x7ce196f06ca45993,0x7ce229de3be38b1b,0x7ce2c3229604a3d0,
0x7ce2c98c2ea3aac3,0x7ce3693a2163ca6b,0x7ce3f5be5803f500,0x7ce408e81423ea13,0x7cf01e0445071b44,0x7cf037aaa7833710,0x7cf0777e66c4fd76,0x7cf0975ebf8750c6,
0x7cf0d7589a4356b8,0x7cf104029d65280b,0x7cf19086d40552a0,0x7cf229de3be38b1b,0x7cf2c98c2ea3aac3,0x7cf3693a2163ca6b,0x7cf3b9111ac3da3f,0x7cf3f5be5803f500,
0x7cf408e81423ea13,0x7cfe569ea00d6080,0x7d000ddaef6e924a,0x7d00375e708eb7f8,0x7d0037aaa7833710,0x7d008781a0e346e4,0x7d0319632803ba97,0x7d03693a2163ca6b,
0x7d03b9111ac3da3f,0x7d03e0fc9773e229,0x7d03f5be5803f500,0x7d0408e81423ea13,0x7d04c1c09012d700,0x7d1004e342b6dde2,0x7d100ddaef6e924a,0x7d100fbf2ad32f26,
0x7d10180cfed6d2f5,0x7d10229caffea521,0x7d1037aaa7833710,0x7d1329bc1ff51300,0x7d13693a2163ca6b,0x7d1391259e13d255,0x7d13a51b5c6bd64a,0x7d13b9111ac3da3f,
0x7d13cd06d91bde34,0x7d13e0fc9773e229,0x7d13f5be5803f500,0x7d14c1c09012d700,0x7d2004e342b6dde2,0x7d200f31e6bace36,0x7d200fbf2ad32f26,0x7d20180cfed6d2f5,
0x7d2020c39e6aa585,0x7d2023b4e92b331b,0x7d2191b7afd74f00,0x7d2329bc1ff51300,0x7d237d2fdfbbce60,0x7d23a51b5c6bd64a,0x7d23b9111ac3da3f,0x7d23cd06d91bde34,
0x7d23e0fc9773e229,0x7d23f5be5803f500,0x7d2d3bc7cf99b590,0x7d2db38a45a9cd4e,0x7d2dc7800401d143,0x7d300be93b352448,0x7d300d70fc5c4996,0x7d300fbf2ad32f26,
0x7d301f78f87120cc,0x7d302034b7603738,0x7d3023b4e92b331b,0x7d32c3bb03eda200,0x7d332d58e65bbe8c,0x7d337d2fdfbbce60,0x7d338fbd3bfc8400,0x7d33a51b5c6bd64a,
0x7d33cd06d91bde34,0x7d33f5be5803f500,0x7d37f8af1ff2ae2f,0x7d38c0488f62d5c1,0x7d3d3bc7cf99b590,0x7d3d77a90aa1c16f,0x7d3db38a45a9cd4e,0x7d3dc7800401d143,
0x7d4002215c972606,0x7d40063731d6f8c9,0x7d400be93b352448,0x7d400fbf2ad32f26,0x7d4010651190fe7c,0x7d4023b4e92b331b,0x7d419942182c7047,0x7d432d58e65bbe8c,
0x7d437d2fdfbbce60,0x7d438fbd3bfc8400,0x7d43cd06d91bde34,0x7d43f5be5803f500,0x7d441cddd27bee08,0x7d445bbf740b6600,0x7d47f8af1ff2ae2f,0x7d485c7bd7aac1f8,
0x7d48c0488f62d5c1,0x7d4b43e449b25382,0x7d4dc7800401d143,0x7d500fbf2ad32f26,0x7d5023b4e92b331b,0x7d5081d1af5c38e1,0x7d510d89e3c45494,0x7d515d60dd246468,
0x7d519942182c7047,0x7d523dd3fa3b8f10,0x7d529533db20214e,0x7d52dd81ecfbaeb8,0x7d537d2fdfbbce60,0x7d53cd06d91bde34,0x7d53f5be5803f500,0x7d541cddd27bee08,
0x7d54858e798300f2,0x7d578875916718db,0x7d58c0488f62d5c1,0x7d5a0c114bb6969c,0x7d5b43e449b25382,0x7d60d9319040cb1f,0x7d615d60dd246468,0x7d6224fa4c948bfa,
0x7d629533db20214e,0x7d62a92999782543,0x7d63cd06d91bde34,0x7d64bc8bc53c0db0,0x7d66649851c35fea,0x7d678875916718db,0x7d68c0488f62d5c1,0x7d6a0c114bb6969c,
0x7d6b43e449b25382,0x7d6bdfcdc8b031f5,0x7d6c7bb747ae1068,0x7d6ddb75c259d538,0x7d706987bf7b94c1,0x7d715d60dd246468,0x7d729533db20214e,0x7d72a92999782543,
0x7d72bd1f57d02938,0x7d73cd06d91bde34,0x7d75b4b9146d7d82,0x7d75dca4911d856c,0x7d76649851c35fea,0x7d778875916718db,0x7d78c0488f62d5c1,0x7d78fc29ca6ae1a0,
0x7d7bdfcdc8b031f5,0x7d7c7bb747ae1068,0x7d7ddb75c259d538,0x7d806987bf7b94c1,0x7d80ad819fce8200,0x7d815d60dd246468,0x7d829533db20214e,0x7d8375173a70ed00,
0x7d83890cf8c8f0f5,0x7d83cd06d91bde34,0x7d83f8fea87156ce,0x7d855cc975c28c4e,0x7d863cacd5135800,0x7d878875916718db,0x7d88c0488f62d5c1,0x7d89b421ad0ba568,
0x7d8bdfcdc8b031f5,0x7d8c7bb747ae1068,0x7d906987bf7b94c1,0x7d90ad819fce8200,0x7d915d60dd246468,0x7d91cd528cccca41,0x7d92114c6d1fb780,0x7d93471941c8bc0e,
0x7d93890cf8c8f0f5,0x7d93f8fea87156ce,0x7d955cc975c28c4e,0x7d963cacd5135800,0x7d978875916718db,0x7d99b421ad0ba568,0x7d9c7bb747ae1068,0x7d9df57dfcaa0235,
0x7da03b89c6d363cf,0x7da131690dceebce,0x7da15d60dd246468,0x7da1b5507bcf559c,0x7da1cd528cccca41,0x7da3471941c8bc0e,0x7da3890cf8c8f0f5,0x7da3f8fea87156ce,
0x7da40efa901c131b,0x7da451f15bc5a42e,0x7da55cc975c28c4e,0x7da6ec8c12693a68,0x7da78875916718db,0x7da79c6b4fbf1cd0,0x7da9b421ad0ba568,0x7daabef9c7088d88,
0x7dab17ec7a5cdae8,0x7dac7bb747ae1068,0x7dadf57dfcaa0235,0x7db010950c274761,0x7db131690dceebce,0x7db1a057a8cdf57b,0x7db1cd528cccca41,0x7db3471941c8bc0e,
0x7db3f8fea87156ce,0x7db40efa901c131b,0x7db424f677c6cf68,0x7db451f15bc5a42e,0x7db55cc975c28c4e,0x7db6ec8c12693a68,0x7db75bfc37bcf22b,0x7db9b421ad0ba568,
0x7dbabef9c7088d88,0x7dbb17ec7a5cdae8,0x7dbc7bb747ae1068,0x7dbdf57dfcaa0235,0x7dc010950c274761,0x7dc0ac3dc5facec9,0x7dc0eef3cc7a08d1,0x7dc3471941c8bc0e,
0x7dc3cc854ec7301e,0x7dc3f8fea87156ce,0x7dc451f15bc5a42e,0x7dc75bfc37bcf22b,0x7dc9b421ad0ba568,0x7dca660713b44028,0x7dcaa8bd1a337a30,0x7dcabef9c7088d88,
0x7dcb17ec7a5cdae8,0x7dcdf57dfcaa0235,0x7dd07fc46c50a819,0x7dd0ac3dc5facec9,0x7dd0eef3cc7a08d1,0x7dd3cc854ec7301e,0x7dd3f8fea87156ce,0x7dd40f3b55466a26,
0x7dd451f15bc5a42e,0x7dda660713b44028,0x7ddaa8bd1a337a30,0x7ddabef9c7088d88,0x7ddb17ec7a5cdae8,0x7dddf57dfcaa0235,0x7dde009c53148be1,0x7de07fc46c50a819,
0x7de0ac3dc5facec9,0x7de0b75c1c655875,0x7de3cc854ec7301e,0x7de3ede05206cd22,0x7de3f8fea87156ce,0x7de40f3b55466a26,0x7de7566d0c87ad55,0x7dea660713b44028,
0x7dea92806d5e66d8,0x7deaa8bd1a337a30,0x7deabef9c7088d88,0x7dedf57dfcaa0235,0x7dee009c53148be1,0x7df063f894464feb,0x7df09b90445b0047,0x7df0ac3dc5facec9,
0x7df0b75c1c655875,0x7df3ab2a4b87931a,0x7df3ede05206cd22,0x7df3fe8dd3a69ba4,0x7df40f3b55466a26,0x7df7566d0c87ad55,0x7dfa398dba0a1978,0x7dfa92806d5e66d8,
0x7dfaa8bd1a337a30,0x7dfaab84afce1c9b,0x7dfabef9c7088d88,0x7dfe009c53148be1,0x7e00012b645b2c16,0x7e0003f2f9f5ce81,0x7e008daa5855d430,0x7e009b90445b0047,
0x7e00a97630602c5e,0x7e03dd32d066fea0,0x7e03ede05206cd22,0x7e03fe8dd3a69ba4,0x7e063cacd5135800,0x7e07566d0c87ad55,0x7e0a7c43c0895380,0x7e0a92806d5e66d8,
0x7e0aa8bd1a337a30,0x7e0aab84afce1c9b,0x7e0e009c53148be1,0x7e0fab2824b7c384,0x7e1071de804b7c02,0x7e108daa5855d430,0x7e10a97630602c5e,0x7e1216db26b96ecf,
0x7e12356e945e6968,0x7e12540202036401,0x7e1a4fca66df2cd0,0x7e1a7c43c0895380,0x7e1aa8bd1a337a30,0x7e1aab84afce1c9b,0x7e1c56108171543e,0x7e1e009c53148be1,
0x7e1fab2824b7c384,0x7e20a97630602c5e,0x7e20c542086a848c,0x7e219bebbc097193,0x7e22540202036401,0x7e25abe13ae475b2,0x7e2615d249e69b00,0x7e2900f8de2ae4f8,
0x7e2aa8bd1a337a30,0x7e2ad53673dda0e0,0x7e2c56108171543e,0x7e2e009c53148be1,0x7e2fab2824b7c384,0x7e3182e77999bbd0,0x7e3256c9979e066c,0x7e32c0baa6a02bba,
0x7e32f5b32e213e61,0x7e346e0e0dde05c8,0x7e3615d249e69b00,0x7e36ec7bfd858807,0x7e375934a2224fc0,0x7e37c05e1b89d2a3,0x7e3900f8de2ae4f8,0x7e3c56108171543e,
0x7e3e009c53148be1,0x7e3fab2824b7c384,0x7e42c0baa6a02bba,0x7e42f5b32e213e61,0x7e432aabb5a25108,0x7e45e0d9c2658859,0x7e4615d249e69b00,0x7e47c05e1b89d2a3,
0x7e47f556a30ae54a,0x7e487b27c09ae521,0x7e4900f8de2ae4f8,0x7e4e009c53148be1,0x7e4fab2824b7c384,0x7e5032f8e4e46b01,0x7e50905db76cf440,0x7e50c5563eee06e7,
0x7e52c0baa6a02bba,0x7e52f5b32e213e61,0x7e532aabb5a25108,0x7e55b86d775e11c1,0x7e55e0d9c2658859,0x7e5615d249e69b00,0x7e57c05e1b89d2a3,0x7e587b27c09ae521,
0x7e5900f8de2ae4f8,0x7e5ae07d374f2f42,0x7e5fab2824b7c384,0x7e6032f8e4e46b01,0x7e60905db76cf440,0x7e60a97630602c5e,0x7e60c5563eee06e7,0x7e62540202036401,
0x7e62f5b32e213e61,0x7e632aabb5a25108,0x7e63531800a9c7a0,0x7e64571052bfa811,0x7e65b86d775e11c1,0x7e6615d249e69b00,0x7e6719ca9bfc7b71,0x7e687b27c09ae521,
0x7e6aa8bd1a337a30,0x7e703f85215e0710,0x7e70446774cd83e2,0x7e70905db76cf440,0x7e70eafaf45adb14,0x7e71437d7373e781,0x7e71f1badc0b5df0,0x7e74571052bfa811,
0x7e74d26ff1aae640,0x7e75b86d775e11c1,0x7e7615d249e69b00,0x7e76691c09ad4699,0x7e7719ca9bfc7b71,0x7e77ca792e4bb049,0x7e787b27c09ae521,0x7e800d542f7796d4,
0x7e80446774cd83e2,0x7e806ab902002013,0x7e80905db76cf440,0x7e8097b134942f7b,0x7e81410c49bc2918,0x7e84d26ff1aae640,0x7e8615d249e69b00,0x7e86691c09ad4699,
0x7e8719ca9bfc7b71,0x7e875934a2224fc0,0x7e87ca792e4bb049,0x7e8822d077734ab5,0x7e887b27c09ae521,0x7e9038066e4559d4,0x7e90446774cd83e2,0x7e90905db76cf440,
0x7e9097b134942f7b,0x7e94d26ff1aae640,0x7e9615d249e69b00,0x7e9719ca9bfc7b71,0x7e977221e52415dd,0x7e97ca792e4bb049,0x7e97f6a4d2df7d7f,0x7e9822d077734ab5,
0x7ea00b5927dd369b,0x7ea00bdac9b18c9e,0x7ea017aeaeae68d6,0x7ea03277431014fe,0x7ea034b1b71f6993,0x7ea038066e4559d4,0x7ea38f0d996f3180,0x7ea615d249e69b00,
0x7ea77221e52415dd,0x7ea79e4d89b7e313,0x7ea7ca792e4bb049,0x7ea7e08f009596e4,0x7ea7f6a4d2df7d7f,0x7ead03087100bd00,0x7eb008cca3514348,0x7eb00bdac9b18c9e,
0x7eb019d4ec3a3b10,0x7eb021f09bfb7339,0x7eb10848e8f7c800,0x7eb615d249e69b00,0x7eb78837b76dfc78,0x7eb7b4635c01c9ae,0x7eb7ca792e4bb049,0x7eb7e08f009596e4,
0x7eb7f6a4d2df7d7f,0x7ec000487edcc764,0x7ec001db11c3e3e2,0x7ec008cca3514348,0x7ec00bdac9b18c9e,0x7ec00f6cbf994e99,0x7ec021f09bfb7339,0x7ec10848e8f7c800,
0x7ec163e852b4c989,0x7ec1e86b4070312b,0x7ec615d249e69b00,0x7ec72fe06e46620c,0x7ec78837b76dfc78,0x7ec7b4635c01c9ae,0x7ec7e08f009596e4,0x7ec7f6a4d2df7d7f,
0x7ecb235baad56e00,0x7ecdeec89304e338,0x7ed001db11c3e3e2,0x7ed0043e8e1187d6,0x7ed00bdac9b18c9e,0x7ed00f6cbf994e99,0x7ed016124e21307f,0x7ed021f09bfb7339,
0x7ed163e852b4c989,0x7ed1a629c9927d5a,0x7ed1d3c00fa8a900,0x7ed1e86b4070312b,0x7ed615d249e69b00,0x7ed72fe06e46620c,0x7ed78837b76dfc78,0x7ed7e08f009596e4,
0x7edae7abc9cd3d0e,0x7edb235baad56e00,0x7eddeec89304e338,0x7ee09d23ee1bae16,0x7ee121a6dbd715b8,0x7ee1a629c9927d5a,0x7ee1e86b4070312b,0x7ee22aacb74de4fc,
0x7ee361ff4075a06f,0x7ee36bf9a50c0440,0x7ee3fc98007aeeac,0x7ee49730c0803ce9,0x7ee531c980858b26,0x7ee626da92cf92c8,0x7ee673166e43aa6a,0x7ee6d789251ec7a0,
0x7ee78837b76dfc78,0x7ee7e08f009596e4,0x7ee838e649bd3150,0x7ee9641d653169f9,0x7eeae7abc9cd3d0e,0x7eedeec89304e338,0x7ef1a629c9927d5a,0x7ef1d2556e264a90,
0x7ef1e86b4070312b,0x7ef36bf9a50c0440,0x7ef49730c0803ce9,0x7ef646eac9afdd34,0x7ef673166e43aa6a,0x7ef78837b76dfc78,0x7ef7e08f009596e4,0x7ef9641d653169f9,
0x7efae7abc9cd3d0e,0x7efd21f677920660,0x7efdeec89304e338,0x7f00006a24f940e0,0x7f00a71e52b211e7,0x7f00cd3c406c1db8,0x7f01d2556e264a90,0x7f01e86b4070312b,
0x7f022aacb74de4fc,0x7f0264ea20738632,0x7f02b53d5be30e03,0x7f036bf9a50c0440,0x7f040ca01beb13e2,0x7f05059ddbf1bdf0,0x7f0673166e43aa6a,0x7f07e08f009596e4,
0x7f0838e649bd3150,0x7f0846f80e4f0550,0x7f09641d653169f9,0x7f099a436e5b9b00,0x7f0d21f677920660,0x7f0deec89304e338,0x7f0e3f1bce746b09,0x7f10006a24f940e0,
0x7f1066d332b2af4c,0x7f106aea92ae1f7b,0x7f10b5301743e5e7,0x7f10fe7a706a83b8,0x7f11149042b46a53,0x7f1121a6dbd715b8,0x7f11d2556e264a90,0x7f1264ea20738632,
0x7f12b53d5be30e03,0x7f136bf9a50c0440,0x7f15059ddbf1bdf0,0x7f1673166e43aa6a,0x7f16d789251ec7a0,0x7f1846f80e4f0550,0x7f199a436e5b9b00,0x7f1deec89304e338,
0x7f1e3f1bce746b09,0x7f20006a24f940e0,0x7f20339eabd5f816,0x7f206aea92ae1f7b,0x7f2072eea0663216,0x7f20b5301743e5e7,0x7f20fe7a706a83b8,0x7f21149042b46a53,
0x7f2121a6dbd715b8,0x7f215cdf706bdf89,0x7f21d2556e264a90,0x7f22353a0abb43fc,0x7f2264ea20738632,0x7f236bf9a50c0440,0x7f25059ddbf1bdf0,0x7f26d789251ec7a0,
0x7f299a436e5b9b00,0x7f2d3e1a00b5ae60,0x7f2e3f1bce746b09,0x7f2f75db68c52b4d,0x7f30006a24f940e0,0x7f300780dd5312cf,0x7f301a0468679c7b,0x7f301a123e78846a,
0x7f3038b1374090e0,0x7f30631aa3422396,0x7f3072eea0663216,0x7f30b5301743e5e7,0x7f30ba76c0fa9567,0x7f30fe7a706a83b8,0x7f313c3c4ab499ee,0x7f315cdf706bdf89,
0x7f31d2556e264a90,0x7f32353a0abb43fc,0x7f32916125719b00,0x7f336bf9a50c0440,0x7f399a436e5b9b00,0x7f3d3e1a00b5ae60,0x7f3f75db68c52b4d,0x7f40006a24f940e0,
0x7f400bdac9b18c9e,0x7f4012ad58ac906a,0x7f40156abcadf385,0x7f401a0468679c7b,0x7f4021f09bfb7339,0x7f4038b1374090e0,0x7f40440597d101c5,0x7f4046c2fbd264e0,
0x7f40631aa3422396,0x7f4092969aae4f16,0x7f40aeee421e0dcc,0x7f40ba76c0fa9567,0x7f40fe7a706a83b8,0x7f436bf9a50c0440,0x7f43a440b7535440,0x7f4615d249e69b00,
0x7f499a436e5b9b00,0x7f4a0ad192ea3b00,0x7f4f75db68c52b4d,0x7f4fc38b4f595b5e,0x7f50006a24f940e0,0x7f5005274be63e24,0x7f50080f62266f02,0x7f5008b2f4162c99,
0x7f5012ad58ac906a,0x7f50156abcadf385,0x7f501a0468679c7b,0x7f501cff56c25f3f,0x7f5020c8894bad5d,0x7f50232e53cda574,0x7f5023969065d2e0,0x7f5046c2fbd264e0,
0x7f50573ba56718b6,0x7f50631aa3422396,0x7f536bf9a50c0440,0x7f57d80adc211b00,0x7f58b927253e5b00,0x7f599a436e5b9b00,0x7f59d28a80a2eb00,0x7f5a0ad192ea3b00,
0x7f5a7b5fb778db00,0x7f5fc38b4f595b5e,0x7f5ff730645aa134,0x7f60006a24f940e0,0x7f60014f6a088eba,0x7f60058e6dfd83d1,0x7f60080f62266f02,0x7f6012ad58ac906a,
0x7f60156abcadf385,0x7f601a0468679c7b,0x7f601eb8234750cc,0x7f6020c8894bad5d,0x7f6023969065d2e0,0x7f602cb82a3f7aa5,0x7f60352cc61c1be0,0x7f60573ba56718b6,
0x7f60631aa3422396,0x7f636bf9a50c0440,0x7f68b927253e5b00,0x7f6929b549ccfb00,0x7f699a436e5b9b00,0x7f69d28a80a2eb00,0x7f69eeae09c69300,0x7f6a0ad192ea3b00,
0x7f6fc3530847140e,0x7f6ff730645aa134,0x7f70006a24f940e0,0x7f70014f6a088eba,0x7f7009c405e52ff5,0x7f701001b244d776,0x7f7012ad58ac906a,0x7f70156abcadf385,
0x7f701a0468679c7b,0x7f7023969065d2e0,0x7f702963aea0ebc1,0x7f702cb82a3f7aa5,0x7f70352cc61c1be0,0x7f70631aa3422396,0x7f736bf9a50c0440,0x7f7961fc5c144b00,
0x7f799a436e5b9b00,0x7f79d28a80a2eb00,0x7f79eeae09c69300,0x7f7a0ad192ea3b00,0x7f7b1c15d78e7c7c,0x7f7b69c5be22ac8d,0x7f7fc3530847140e,0x7f80156abcadf385,
0x7f802c61ab40f760,0x7f806022e3cb60de,0x7f80631aa3422396,0x7f836bf9a50c0440,0x7f89e09c4534bf00,0x7f89e5563d3dbc38,0x7f8a80b60a661c5a,0x7f8ace65f0fa4c6b,
0x7f8b1c15d78e7c7c,0x7f8b69c5be22ac8d,0x7f90014f6a088eba,0x7f90156abcadf385,0x7f901b3e1812554d,0x7f9030c738ae89a0,0x7f90631aa3422396,0x7f90649682fd84f2,
0x7f9282f0fa31bcf7,0x7f936bf9a50c0440,0x7f94551061aadd5d,0x7f98ae96a2ecfbf4,0x7f99e5563d3dbc38,0x7f99e7a5277da900,0x7f99eeae09c69300,0x7f9a80b60a661c5a,
0x7f9b1c15d78e7c7c,0x7f9b69c5be22ac8d,0x7fa0156abcadf385,0x7fa016df93870bf7,0x7fa02e9471f7c080,0x7fa030c738ae89a0,0x7fa0625cb36472e8,0x7fa0631aa3422396,
0x7fa282f0fa31bcf7,0x7fa36bf9a50c0440,0x7fa36c00adee4d2a,0x7fa4551061aadd5d,0x7fa8ae96a2ecfbf4,0x7fa9e420b6593400,0x7fa9e5563d3dbc38,0x7fa9e7a5277da900,
0x7fab1c15d78e7c7c,0x7fab69c5be22ac8d,0x7faea67085ca6414,0x7fb02f55e64695a3,0x7fb118659a0325d6,0x7fb199e146752cc4,0x7fb1b3c5672b85f8,0x7fb2690cd97b63c3,
0x7fb36c00adee4d2a,0x7fb4551061aadd5d,0x7fb488dc2788b43a,0x7fb50a57d3fabb28,0x7fb53e2015676d90,0x7fb61a3db8c8d129,0x7fb777d7089c3bb0,0x7fb9a4986704b8c1,
0x7fb9e5563d3dbc38,0x7fbb1c15d78e7c7c,0x7fbc52d571df3cc0,0x7fbce1432eac7048,0x7fbea67085ca6414,0x7fc02f55e64695a3,0x7fc118659a0325d6,0x7fc36c00adee4d2a,
0x7fc407607b16ad4c,0x7fc4551061aadd5d,0x7fc61a3db8c8d129,0x7fc6fcd46457cb0f,0x7fc9093899dc589f,0x7fc9a4986704b8c1,0x7fc9e5563d3dbc38,0x7fcb1c15d78e7c7c,
0x7fcce1432eac7048,0x7fcea67085ca6414,0x7fd0d12ebb9c8c12,0x7fd1ad4c5efdefab,0x7fd1b3c5672b85f8,0x7fd407607b16ad4c,0x7fd4551061aadd5d,0x7fd61a3db8c8d129,
0x7fd6fcd46457cb0f,0x7fd791bb295294e4,0x7fd9093899dc589f,0x7fdb1c15d78e7c7c,0x7fdc52d571df3cc0,0x7fdce1432eac7048,0x7fdd528e8473ed3b,0x7fdea67085ca6414,
0x7fe3012e60546684,0x7fe4551061aadd5d,0x7fe5a8f263015436,0x7fe61a3db8c8d129,0x7fe6fcd46457cb0f,0x7fe956e8807088b0,0x7fe9b6661e9e5f32,0x7feb1c15d78e7c7c,
0x7fece1432eac7048,0x7fed528e8473ed3b,0x7fedc3d9da3b6a2e,0x7feea67085ca6414,
};
static const unsigned HARD_TRIGF[] = {
0x3e800000,0x3e800001,0x3effffff,0x3f000000,0x3f000001,0x3f490fd8,0x3f490fd9,0x3f490fda,
0x3f490fdb,0x3f7fffff,0x3f800000,0x3f800001,0x3fc90fd8,0x3fc90fd9,0x3fc90fda,0x3fc90fdb,
0x3fc90fdc,0x40000000,0x40000001,0x4016cbe4,0x4016cbe5,0x40490fd6,0x40490fd8,0x40490fda,
0x40490fdb,0x40490fdc,0x407b53d1,0x40800000,0x40800001,0x4096cbdc,0x4096cbdf,0x4096cbe2,
0x4096cbe4,0x4096cbe5,0x4096cbe8,0x40afede4,0x40c90fd0,0x40c90fd4,0x40c90fd8,0x40c90fda,
0x40c90fdc,0x40c90fe0,0x40e231d6,0x40fb53d1,0x41000000,0x41000001,0x410a3aea,0x4116cbd6,
0x4116cbdc,0x4116cbe2,0x4116cbe4,0x4116cbe5,0x4116cbe8,0x412fedcf,0x412fedd6,0x412feddd,
0x412fede4,0x413c7edd,0x41490fc8,0x41490fd0,0x41490fd8,0x41490fdc,0x41490fe0,0x416231d6,
0x417b53d1,0x41800000,0x41800001,0x4183f264,0x418a3ac9,0x418a3ad4,0x418a3adf,0x418a3aea,
0x4196cbc4,0x4196cbd0,0x4196cbdc,0x4196cbe0,0x4196cbe2,0x4196cbe4,0x4196cbe8,0x419d1462,
0x41afeddd,0x41bc7edc,0x41bc7edd,0x41c90fb0,0x41c90fc0,0x41c90fd0,0x41c90fd8,0x41c90fe0,
0x41dbe957,0x41fb53d0,0x41fb53d1,0x4203f22c,0x4203f256,0x4203f264,0x4203f268,0x4203f26b,
0x420a3aa8,0x420a3ad4,0x420a3aea,0x420d5f25,0x4216cbe0,0x4216cbe2,0x4216cbe4,0x4219f024,
0x421d1462,0x422feddd,0x422fede0,0x423c7edc,0x423c7edd,0x42490f80,0x42490fc0,0x42490fd8,
0x42490fe0,0x425be957,0x4271e713,0x427b53d0,0x4280ce17,0x4280ce40,0x4283f256,0x4283f264,
0x4283f268,0x4283f26b,0x4283f280,0x428a3aea,0x428bcd06,0x428d5f22,0x428d5f25,0x4296cbe0,
0x4296cbe4,0x4299f024,0x429d1462,0x42afede0,0x42b17fff,0x42bc7edd,0x42c90fc0,0x42c90fe0,
0x42c91000,0x42d732f8,0x42f1e713,0x42fb53d0,0x42fce5f1,0x4303f268,0x43058487,0x430bcd06,
0x430d5f25,0x430ef146,0x43114c75,0x4316cbe4,0x431d1462,0x432038a2,0x432fede0,0x43317fff,
0x433c7edd,0x4351b389,0x4355a0d8,0x435732f8,0x437b53d0,0x437ce5f1,0x4380ce28,0x43858487,
0x438bcd06,0x43914c75,0x439470b4,0x4396cbe4,0x43a038a2,0x43a101b2,0x43a1663a,0x43a9a560,
0x43bc7edd,0x43c71933,0x43d1b389,0x43d5a0d8,0x43d732f8,0x43fce5f1,0x4400ce28,0x44019738,
0x44067fdb,0x4409d65e,0x4410e7ed,0x44114c75,0x441470b4,0x4416cbe4,0x4417306c,0x4421663a,
0x4429a560,0x442cc9a0,0x443c7edd,0x44471933,0x445732f8,0x4461ff92,0x447ce5f1,0x4480ce28,
0x44819738,0x4483f268,0x44848933,0x44867fdb,0x448971d7,0x4489d65e,0x448be628,0x448c63d2,
0x4490e7ed,0x44a1663a,0x44a9a560,0x44acc9a0,0x44afede0,0x44c71933,0x44d732f8,0x44e1ff92,
0x44fce5f1,0x4500ce28,0x4501261f,0x45067fdb,0x450be628,0x4510e7ed,0x4521663a,0x452c32d4,
0x45319921,0x4551d93c,0x455732f8,0x4561ff92,0x456ccc2c,0x457ce5f1,0x4581006c,0x4581261f,
0x458132b0,0x45819738,0x4583c66c,0x45867fdb,0x4586fd85,0x458bc075,0x458be628,0x45915906,
0x459699a0,0x45a1663a,0x45ac0090,0x45ac32d4,0x45acc9a0,0x45aedfb2,0x45d1d93c,0x45d732f8,
0x45fce5f1,0x46000b61,0x460069a0,0x460132b0,0x46019738,0x4602c4d0,0x4603167e,0x4603c66c,
0x46067fdb,0x4606fd85,0x460945db,0x460be628,0x460d3006,0x461699a0,0x461d62ed,0x4621663a,
0x462b3780,0x462cc9a0,0x462e5bc0,0x462edfb2,0x465732f8,0x467ce5f1,0x468001f4,0x468069a0,
0x4680e748,0x468132b0,0x46819738,0x4681c00f,0x46822495,0x4683c66c,0x4686beb0,0x4686fd85,
0x468945db,0x468be628,0x468d3006,0x469699a0,0x469d62ed,0x469ea680,0x46aa2ae5,0x46ab3780,
0x46acc9a0,0x46bba7aa,0x46cd246f,0x46d79780,0x46dea134,0x46fce5f1,0x470132b0,0x4703c66c,
0x47087b39,0x470945db,0x470be628,0x470c97a8,0x471699a0,0x47195fa0,0x471d62ed,0x472a2ae5,
0x47308ee1,0x473ba7aa,0x474c7f80,0x474d246f,0x475ea134,0x476b692c,0x4785296c,0x478633ac,
0x478be628,0x478c97a8,0x47904235,0x47957c22,0x4798ae20,0x479d62ed,0x47a6f8e7,0x47b08ee1,
0x47b18c90,0x47bba7aa,0x47cc7f80,0x47cd246f,0x47dea134,0x47e50530,0x47eb692c,0x4802665e,
0x4805296c,0x480be628,0x48104235,0x4810c755,0x48157c22,0x4818ae20,0x481d62ed,0x48257618,
0x4826f8e7,0x48318c90,0x483ba7aa,0x483ed9a8,0x484d246f,0x485ea134,0x48603a33,0x4880a0ff,
0x4882665e,0x4885985c,0x488a5841,0x488be628,0x488eebc6,0x48924a24,0x48957c22,0x4898ae20,
0x489d62ed,0x48a6f8e7,0x48b6dcad,0x48b875ac,0x48c3998d,0x48cd246f,0x48dea134,0x48e03a33,
0x48e4ac70,0x49003d27,0x4902665e,0x4904fd0c,0x49054ab4,0x4905985c,0x49071013,0x490a5841,
0x490ba398,0x490f01f6,0x490f233e,0x4917fca0,0x4918ae20,0x4926f8e7,0x493875ac,0x4943998d,
0x49485efe,0x494b1c80,0x494d246f,0x495ea134,0x497e3c60,0x4980d2eb,0x498168af,0x49821e42,
0x4982665e,0x498301ae,0x49854ab4,0x4985985c,0x4998ae20,0x49a562ae,0x49a6f8e7,0x49b5493a,
0x49c3998d,0x49c85efe,0x49cb1c80,0x49cc7f80,0x49dea134,0x49e695dd,0x49f1b6f8,0x4a02665e,
0x4a0bf140,0x4a10b3eb,0x4a17125b,0x4a18a894,0x4a255fe8,0x4a2562ae,0x4a2eed90,0x4a321a02,
0x4a35493a,0x4a43998d,0x4a485efe,0x4a4b8b70,0x4a6695dd,0x4a71b6f8,0x4a781405,0x4a82665e,
0x4a8727a6,0x4a8befdd,0x4a8bf140,0x4a8f1aec,0x4a8f1f15,0x4a93e486,0x4a97125b,0x4a98a894,
0x4a9d6f68,0x4aa562ae,0x4aa95c51,0x4ab5493a,0x4abed41c,0x4ac3998d,0x4acb8b70,0x4addd6c9,
0x4ae1d06c,0x4ae695dd,0x4aef54f1,0x4af1b6f8,0x4af81405,0x4afe68c0,0x4b00d2eb,0x4b02665e,
0x4b032e03,0x4b03322c,0x4b05985c,0x4b0727a6,0x4b0bf140,0x4b13e486,0x4b18ae20,0x4b1ca39a,
0x4b210324,0x4b2562ae,0x4b295c51,0x4b43998d,0x4b5dd6c9,0x4b61d06c,0x4b6af567,0x4b6f54f1,
0x4b73b47b,0x4b781405,0x4b7e68c0,0x4b832e03,0x4b83322c,0x4b8727a6,0x4b8791b6,0x4b8b2572,
0x4b8bf140,0x4b93e486,0x4b9ca39a,0x4ba10324,0x4ba332e9,0x4ba562ae,0x4bd0b82b,0x4bddd6c9,
0x4beaf567,0x4bf184b6,0x4bf3b47b,0x4bf81405,0x4bfe68c0,0x4c00c670,0x4c010267,0x4c02904e,
0x4c03322c,0x4c0bf140,0x4c184410,0x4c1ca39a,0x4c210324,0x4c2332e9,0x4c2562ae,0x4c4b73b2,
0x4c646618,0x4c64ef00,0x4c6af567,0x4c7184b6,0x4c73b47b,0x4c75e440,0x4c781405,0x4c810267,
0x4c83322c,0x4c8bf140,0x4c8f84fc,0x4c984410,0x4ca10324,0x4ca332e9,0x4ca562ae,0x4cb3663b,
0x4cb86b30,0x4cbe5514,0x4cc943ed,0x4ccb73b2,0x4cf5e440,0x4cf81405,0x4d03f0b8,0x4d047661,
0x4d053b8e,0x4d06c5e8,0x4d0dfaa2,0x4d1299b0,0x4d1489f1,0x4d179ea5,0x4d184410,0x4d210324,
0x4d2332e9,0x4d29c238,0x4d386b30,0x4d4943ed,0x4d4b73b2,0x4d54f7f3,0x4d6a8f80,0x4d75e440,
0x4d80bc42,0x4d847661,0x4d8c7048,0x4d8dfaa2,0x4d93d4a5,0x4d9489f1,0x4d99aea8,0x4da332e9,
0x4da9c238,0x4db86b30,0x4dbb4060,0x4dcb73b2,0x4dd4f7f3,0x4dea303a,0x4df5e440,0x4e00467a,
0x4e00bc42,0x4e03f0b8,0x4e047661,0x4e053b8e,0x4e069645,0x4e0a5064,0x4e0c2583,0x4e0ebfcf,
0x4e13d4a5,0x4e184410,0x4e19aea8,0x4e3b4060,0x4e4b73b2,0x4e6a303a,0x4e6a8f80,0x4e75e440,
0x4e798e7e,0x4e80467a,0x4e809c80,0x4e80bc42,0x4e821b99,0x4e82a142,0x4e847661,0x4e84a164,
0x4e869645,0x4e884df2,0x4e8a5064,0x4e8c2583,0x4e8ffd14,0x4e93d4a5,0x4ebb4060,0x4eea8f80,
0x4ef5e440,0x4ef98e7e,0x4f00467a,0x4f009c80,0x4f021b99,0x4f029ef2,0x4f02a142,0x4f0678d3,
0x4f084df2,0x4f0c2583,0x4f0ffd14,0x4f13d4a5,0x4f57fb9e,0x4f5bd32f,0x4f6a8f80,0x4f75e440,
0x4f809ed0,0x4f8283d0,0x4f82a142,0x4f855a28,0x4f8678d3,0x4f884df2,0x4f8d90af,0x4f8ffd14,
0x4f93d4a5,0x4fa9e0d2,0x4fb3fc59,0x4fb59600,0x4fc0ee38,0x4fcc74eb,0x4fd7fb9e,0x4fdbd32f,
0x4fe28118,0x4ff5e440,0x4fffd274,0x500070e9,0x50009ed0,0x500118a4,0x500283d0,0x5002a142,
0x5002dd4e,0x500678d3,0x500d90af,0x500ffd14,0x501b1940,0x5020c684,0x5023e87f,0x5029e0d2,
0x5033fc59,0x50359600,0x5037d3ea,0x5047e7c4,0x50628118,0x5075e440,0x507fd274,0x50809ed0,
0x50864b80,0x508b6fed,0x508eb038,0x508ffd14,0x5090b2aa,0x509f5b58,0x50a3e87f,0x50b3fc59,
0x50b7d3ea,0x50bfddd7,0x50c7e7c4,0x50ffd274,0x51009ed0,0x5102b06a,0x5108a8bd,0x510b6fed,
0x510bcab8,0x510e91e8,0x510ffd14,0x511f5b58,0x5123e87f,0x5127c010,0x5133fc59,0x513e17e0,
0x513fddd7,0x5147e7c4,0x5155e270,0x515faac0,0x5163dd1c,0x517fd274,0x51841b96,0x518bcab8,
0x518ffd14,0x5195edd3,0x5199c564,0x519a202f,0x51a3e87f,0x51aae5d5,0x51b024c8,0x51b3fc59,
0x51bfddd7,0x51c7e7c4,0x51d5e270,0x51dfaac0,0x51e3dd1c,0x51ffd274,0x5200f5d1,0x52041038,
0x5204cd62,0x5208f460,0x520bcab8,0x520ffd14,0x5215edd3,0x521c8500,0x5223e87f,0x522ae5d5,
0x522bf26c,0x5233fc59,0x5247e7c4,0x5255e270,0x5259611b,0x525cdfc6,0x525faac0,0x5263dd1c,
0x52814eb7,0x5284cd62,0x528b71d2,0x5295edd3,0x52a069d4,0x52a3e87f,0x52aae5d5,0x52b9ed18,
0x52bea4cd,0x52c7e7c4,0x52d5e270,0x52d9611b,0x52dcdfc6,0x52dfaac0,0x52e3dd1c,0x5305ad86,
0x53092c31,0x530a38c8,0x530b71d2,0x53168a58,0x531df7c0,0x532069d4,0x5322af75,0x5323e87f,
0x533146a6,0x5339ed18,0x533ea4cd,0x5355e270,0x535cdfc6,0x5380594c,0x53814eb7,0x5384cd62,
0x5385ad86,0x5385f125,0x53892c31,0x538a38c8,0x538c51f6,0x53919a9a,0x53930bad,0x53968a58,
0x539df7c0,0x53a3e87f,0x53b146a6,0x53c22378,0x53cc1a20,0x53d5e270,0x53dfaac0,0x53e1cf84,
0x53fc8bd2,0x5400594c,0x5405490a,0x5405ad86,0x5406e690,0x540f54f9,0x54119a9a,0x54130bad,
0x54168a58,0x54190237,0x541df7c0,0x543146a6,0x5439b50f,0x543c2cee,0x54422378,0x544c02f4,
0x5455e270,0x5456e93c,0x5461cf84,0x54779c14,0x547c8bd2,0x5482cb60,0x54832fdc,0x5485ad86,
0x54892666,0x548ba410,0x548db1a8,0x54919a9a,0x54930bad,0x54968a58,0x54990237,0x54a9df09,
0x54ae6480,0x54b146a6,0x54bc2cee,0x54bed140,0x54c22378,0x54c417f1,0x54cc02f4,0x54d17618,
0x54d5e270,0x54d6e93c,0x5502cb60,0x5503b90d,0x5505ad86,0x55069b33,0x55083e84,0x550ba410,
0x550e8636,0x55130bad,0x55168a58,0x55190237,0x55212eed,0x552e6480,0x553146a6,0x554417f1,
0x554c02f4,0x55517618,0x5555e270,0x5556e93c,0x556700f5,0x557d6060,0x5580bdc8,0x5583b90d,
0x558a5b91,0x558ba410,0x558e5da2,0x5590d581,0x55950026,0x55968a58,0x559fd224,0x55a12eed,
0x55aa4950,0x55ae8d14,0x55b146a6,0x55d58c73,0x55d6e93c,0x55e700f5,0x55f87577,0x56049270,
0x560ba410,0x560e5da2,0x56111734,0x56134d60,0x561d1892,0x561fd224,0x56212eed,0x56288c65,
0x563146a6,0x56355d01,0x56558c73,0x5656e93c,0x566baf00,0x566fbb36,0x56787577,0x5682e9cf,
0x56840f0a,0x5687002a,0x568a0fb9,0x568ba410,0x568e5da2,0x569d8031,0x569fd224,0x56a88c65,
0x56b40038,0x56bb5db0,0x56c015e0,0x56c7c6ad,0x56d58c73,0x56efbb36,0x56f87577,0x56f9d240,
0x570097dc,0x5700e3b4,0x5702e9cf,0x57032b82,0x57049270,0x5707002a,0x57083707,0x570ba410,
0x57103500,0x571c2368,0x571d8031,0x571fd224,0x572170a0,0x57340038,0x57382989,0x573b5db0,
0x5740e3ca,0x5747c6ad,0x575080ee,0x576baf00,0x57787577,0x5779d240,0x578097dc,0x5782e9cf,
0x578ba410,0x578c8644,0x57903500,0x57920c5e,0x579c2368,0x579fd224,0x57aa63c3,0x57b82989,
0x57c0e3ca,0x57c2bb28,0x57c7c6ad,0x57d080ee,0x57d84f80,0x57e01e12,0x57f9d240,0x580097dc,
0x58044698,0x58103500,0x58120c5e,0x5814cf6b,0x581fd224,0x5820bdd3,0x582a63c3,0x58344240,
0x58382989,0x5842bb28,0x5847c6ad,0x58584f80,0x585c36c9,0x58601e12,0x588097dc,0x5880d069,
0x5881ead5,0x5883fac0,0x5884b7b2,0x588d3966,0x58903500,0x58a0bdd3,0x58a23ba0,0x58a97814,
0x58b44240,0x58b82989,0x58dc36c9,0x58e1f570,0x58ee3d69,0x58f9d240,0x5900d069,0x59024028,
0x5904a9a4,0x5904b7b2,0x5904d8b6,0x590731b0,0x5909f4bd,0x590d3966,0x590f10c4,0x59103500,
0x591a5f00,0x591b58bd,0x59223ba0,0x592380e0,0x595c36c9,0x5961f570,0x596e3d69,0x597740b9,
0x5979d240,0x598042de,0x5980d069,0x59810b6a,0x59817a10,0x5981c0ab,0x59824028,0x5982b008,
0x59842c9b,0x5984b7b2,0x5984d8b6,0x598731b0,0x5989f4bd,0x59903500,0x599a5f00,0x59a380e0,
0x59aca2c0,0x59bee680,0x59f740b9,0x59f9d240,0x59fbc261,0x5a0000f0,0x5a00234f,0x5a005240,
0x5a006c5e,0x5a006f34,0x5a00710b,0x5a00b7a6,0x5a00ce92,0x5a00d069,0x5a010b6a,0x5a017a10,
0x5a01daa8,0x5a025e1b,0x5a02b008,0x5a040490,0x5a042c9b,0x5a04b7b2,0x5a060b00,0x5a0731b0,
0x5a103500,0x5a121e00,0x5a1a5f00,0x5a22a000,0x5a2ca2c0,0x5a533a80,0x5a79d240,0x5a7bc261,
0x5a7e0335,0x5a8000f0,0x5a80234f,0x5a802998,0x5a804887,0x5a805f97,0x5a806c5e,0x5a806f34,
0x5a80710b,0x5a80b7a6,0x5a80ce92,0x5a80d14e,0x5a810b6a,0x5a818f9e,0x5a81daa8,0x5a825e1b,
0x5a82b008,0x5a860b00,0x5a903500,0x5a921e00,0x5a9a5f00,0x5aa2a000,0x5ad33a80,0x5ae36e00,
0x5afe0335,0x5aff239f,0x5b0000f0,0x5b00016e,0x5b000abd,0x5b000d81,0x5b001544,0x5b004887,
0x5b005f97,0x5b006820,0x5b006f34,0x5b00710b,0x5b00ce92,0x5b00d14e,0x5b00ff69,0x5b010b6a,
0x5b018f9e,0x5b060b00,0x5b103500,0x5b1a5f00,0x5b22a000,0x5b3ac600,0x5b413000,0x5b636e00,
0x5b7f239f,0x5b7fb3d4,0x5b800002,0x5b8000f0,0x5b8003d0,0x5b800843,0x5b800a28,0x5b800b1a,
0x5b803be9,0x5b804887,0x5b805f97,0x5b806f34,0x5b80b7ca,0x5b80ce92,0x5b80d14e,0x5b80ff69,
0x5b841000,0x5b860b00,0x5b869c66,0x5b872c9b,0x5b87bcd0,0x5b884d05,0x5b903500,0x5ba2a000,
0x5bcb0000,0x5be36e00,0x5bf7c200,0x5bffb3d4,0x5c004180,0x5c004887,0x5c006f34,0x5c00750a,
0x5c00cca0,0x5c00ce92,0x5c00f600,0x5c00ff69,0x5c057bfc,0x5c060b00,0x5c069c66,0x5c072c9b,
0x5c07bcd0,0x5c084d05,0x5c0b2000,0x5c103500,0x5c4839fa,0x5c49ea99,0x5c4b9b38,0x5c4c2b6d,
0x5c8000f3,0x5c8013f0,0x5c804180,0x5c804b98,0x5c804f56,0x5c806f34,0x5c808710,0x5c80ff69,
0x5c833b28,0x5c857bfc,0x5c869c66,0x5c87bcd0,0x5c8b2000,0x5c903500,0x5c954a00,0x5ca409f2,
0x5ca6dafb,0x5ca9ac04,0x5cc839fa,0x5cc9ea99,0x5ccb9b38,0x5ccc2b6d,0x5ced9800,0x5cee1aa1,
0x5d0000f3,0x5d001eb8,0x5d003bbc,0x5d004180,0x5d004b98,0x5d006f34,0x5d00a929,0x5d00ff69,
0x5d033b28,0x5d057bfc,0x5d07bcd0,0x5d0b2000,0x5d0e90b0,0x5d103500,0x5d13a28d,0x5d154a00,
0x5d18b46a,0x5d1e67e0,0x5d2409f2,0x5d26dafb,0x5d29ac04,0x5d5ada00,0x5d6e1aa1,0x5d7d7300,
0x5d7f123b,0x5d800d54,0x5d801eb8,0x5d803bbc,0x5d804d73,0x5d806f34,0x5d80a929,0x5d80cc44,
0x5d80ff69,0x5d833b28,0x5d846cf6,0x5d86a518,0x5d87bcd0,0x5d8b2000,0x5d8bc859,0x5d8e90b0,
0x5d903500,0x5d90389d,0x5d93a28d,0x5d98b46a,0x5d9e67e0,0x5ddada00,0x5deb6c60,0x5dfd7300,
0x5dfda200,0x5dff123b,0x5e0004a2,0x5e000d54,0x5e0019d6,0x5e004d73,0x5e006f34,0x5e00a159,
0x5e00cc44,0x5e00ff69,0x5e02af4c,0x5e032e1d,0x5e046cf6,0x5e06a518,0x5e078300,0x5e07b41e,
0x5e07bcd0,0x5e0b2000,0x5e0bc859,0x5e0e90b0,0x5e103500,0x5e10389d,0x5e10c020,0x5e6b6c60,
0x5e7a8c3a,0x5e7d7300,0x5e7da200,0x5e7f123b,0x5e8019d6,0x5e806f34,0x5e80a159,0x5e80ff69,
0x5e81146a,0x5e81b661,0x5e82120c,0x5e82579c,0x5e82af4c,0x5e832e1d,0x5e84417c,0x5e847a01,
0x5e852cfe,0x5e86a518,0x5e878300,0x5e87b41e,0x5e87bcd0,0x5e8892f3,0x5e903500,0x5e90389d,
0x5e90c020,0x5ea2c6c0,0x5eb55880,0x5ed01ce0,0x5ed965c0,0x5efa8c3a,0x5efc8720,0x5efd7300,
0x5f0004a8,0x5f00b466,0x5f00df24,0x5f00eceb,0x5f01b661,0x5f02120c,0x5f02579c,0x5f02af4c,
0x5f032e1d,0x5f04417c,0x5f07b41e,0x5f07bcd0,0x5f0892f3,0x5f10389d,0x5f10c020,0x5f22c6c0,
0x5f355880,0x5f4a9dc5,0x5f501ce0,0x5f531992,0x5f5a7c00,0x5f5b955f,0x5f64112c,0x5f7c8720,
0x5f7d7300,0x5f82120c,0x5f8452e0,0x5f86e254,0x5f87bcd0,0x5f8892f3,0x5f89d654,0x5f8e60ae,
0x5f90389d,0x5fb06e80,0x5fb12a5e,0x5fca9dc5,0x5fd01ce0,0x5fd31992,0x5fdb955f,0x5fe4112c,
0x5fefcb40,0x60032327,0x6004a180,0x6006e254,0x6007bcd0,0x60095e20,0x6010389d,0x6011997a,
0x60179400,0x601dd474,0x602b0ce1,0x60312a5e,0x603d6558,0x604221f8,0x60531992,0x605b955f,
0x6064112c,0x606fcb40,0x607c8720,0x60806b41,0x60830030,0x60832327,0x608688be,0x6086e254,
0x6087bcd0,0x6090389d,0x6091997a,0x609dd474,0x60a032c4,0x60a3c03c,0x60ab0ce1,0x60bd6558,
0x60c221f8,0x60c3afa0,0x60c83f75,0x60db955f,0x60e4112c,0x60efcb40,0x60fc556b,0x60fc8720,
0x61030030,0x6103639a,0x6107bcd0,0x610ab03f,0x610e0c02,0x6110389d,0x6111997a,0x611aacdb,
0x611dd474,0x6123c03c,0x6129ddb9,0x612b0ce1,0x614221f8,0x61435120,0x6153b126,0x6164112c,
0x616994a0,0x617c556b,0x617c8720,0x61830030,0x6187bcd0,0x6190389d,0x6191997a,0x61927cd8,
0x61936036,0x619aacdb,0x61a29114,0x61a9ddb9,0x61ab0ce1,0x61c221f8,0x61c35120,0x61cb3559,
0x61d3b126,0x61e4112c,0x6201d108,0x620242b7,0x62030030,0x620627c9,0x620b3033,0x620e0c02,
0x62127cd8,0x621aacdb,0x6222454a,0x62229114,0x622b0ce1,0x62435120,0x624b3559,0x6253b126,
0x6264112c,0x626c1b4a,0x627c8720,0x6281d108,0x628242b7,0x62830030,0x628b3033,0x62920b29,
0x62927cd8,0x62a2dcde,0x62aae6fc,0x62ab0ce1,0x62c35120,0x62d3b126,0x62dfe638,0x62e4112c,
0x62ec1b4a,0x62f44b4d,0x6301338c,0x63030030,0x63055e80,0x630647c6,0x630b3033,0x63127cd8,
0x6322dcde,0x633b4702,0x63435120,0x63477c14,0x6353b126,0x635fe638,0x636600c1,0x636c1b4a,
0x63744b4d,0x63802d3d,0x6380a1e0,0x6381338c,0x63834906,0x6384a6ef,0x63855e80,0x638647c6,
0x63ae0733,0x63ba3c45,0x63c35120,0x63c77c14,0x63d3b126,0x63dfe638,0x63e600c1,0x63ec1b4a,
0x63f8505c,0x64002d3d,0x64034d74,0x640647c6,0x64159d0f,0x6427ecaa,0x642e0733,0x642f11f0,
0x643a3c45,0x64435120,0x64477c14,0x644a03fa,0x645fe638,0x646600c1,0x646c1b4a,0x6478505c,
0x64834d74,0x6487194d,0x648befe3,0x648e055d,0x64920a6c,0x64992fb2,0x649dcd12,0x64a7ecaa,
0x64ae0733,0x64af11f0,0x64b421bc,0x64ca03fa,0x64db0fa2,0x64dfe638,0x64ec1b4a,0x64fc7b50,
0x65002d3d,0x6500fec4,0x65034d74,0x650647c6,0x6507194d,0x65085d40,0x65098498,0x650befe3,
0x650e3e93,0x65120a6c,0x651968e8,0x6527ecaa,0x652e0733,0x652f11f0,0x653421bc,0x65417e26,
0x65435120,0x654a03fa,0x655b0fa2,0x655fe638,0x6580fec4,0x65834d74,0x658840a5,0x65898498,
0x658befe3,0x658e3e93,0x65920a6c,0x659bb798,0x65a13e75,0x65a7ecaa,0x65ae0733,0x65af11f0,
0x65b68d07,0x65c17e26,0x65ca03fa,0x65ce46e4,0x65dfe638,0x65f2c97f,0x66003687,0x6600fec4,
0x6602a1d2,0x66041a56,0x66085d40,0x66098498,0x660befe3,0x660e5b2e,0x66120a6c,0x6616972c,
0x661ad2c0,0x66213e75,0x6626150b,0x6627ecaa,0x662be5be,0x6634b568,0x66368d07,0x663dcee8,
0x664e46e4,0x665fe638,0x6670f1e0,0x6672c97f,0x66800f28,0x668058fe,0x6680f57a,0x6680f82b,
0x6680fec4,0x6681489a,0x6681f8e1,0x668285f4,0x6682cd19,0x66841a56,0x6687880e,0x66885d40,
0x66898498,0x668e3643,0x6693ac00,0x6696972c,0x669ab52b,0x66a13e75,0x66abe5be,0x66b4b568,
0x66c6e480,0x66ceda90,0x66ebcf80,0x66f0f1e0,0x66f2c97f,0x6700007f,0x67000f28,0x67003413,
0x6700f57a,0x67011f0a,0x6701489a,0x6701f8e1,0x6702cd19,0x67031b94,0x67041a56,0x67073e38,
0x6707880e,0x67085d40,0x67098498,0x670e3643,0x6710e73c,0x6713ac00,0x6716972c,0x671a9040,
0x671ab52b,0x674eda90,0x676bcf80,0x6770f1e0,0x6772c97f,0x677a510e,0x677e4500,0x6780007f,
0x67808830,0x67819270,0x6781ab60,0x6781f8e1,0x6782b9c8,0x67841a56,0x6785fe6d,0x6786f88a,
0x67873e38,0x6787880e,0x6787f4bb,0x67885d40,0x67898498,0x6790e73c,0x67919800,0x679450cc,
0x679a9040,0x679ab52b,0x67acc340,0x67c5c110,0x67d12940,0x67f0f1e0,0x67f57c8c,0x67fa510e,
0x6800007f,0x680020c5,0x68011f0a,0x68019270,0x6801f8e1,0x680269b6,0x68041a56,0x6804457d,
0x6804f8e2,0x68073e38,0x6807880e,0x6807f4bb,0x68085d40,0x68098498,0x6813bf34,0x681450cc,
0x681a9040,0x681ab52b,0x682cc340,0x6845c110,0x686c6520,0x6870f1e0,0x6873124b,0x68757c8c,
0x687e4500,0x68803f64,0x68808830,0x68813e36,0x6881f8e1,0x688269b6,0x688316df,0x68841a56,
0x6884d3f7,0x6884f8e2,0x6887f4bb,0x68885d40,0x68898498,0x68919800,0x6893bf34,0x689450cc,
0x689a9040,0x689ab52b,0x68a48295,0x68c5c110,0x68c6e3bb,0x68d8144e,0x68ec5480,0x68ec6520,
0x68f3124b,0x6904f8e2,0x69093bcc,0x69098498,0x690c5c0b,0x69130936,0x691ab52b,0x691cd6a0,
0x69248295,0x6929694a,0x6935b328,0x6946e3bb,0x6958144e,0x6961e1b8,0x696c6520,0x6984f8e2,
0x69872c8a,0x69898498,0x698c5c0b,0x69935202,0x69937668,0x699976f1,0x699ab52b,0x69a9694a,
0x69b5b328,0x69bbd817,0x69c49de0,0x69c6e3bb,0x69d8144e,0x69dcfb03,0x69e1e1b8,0x69ec6520,
0x69fa7574,0x6a02c08c,0x6a048bb0,0x6a08465e,0x6a098498,0x6a0d2d13,0x6a0f9754,0x6a1976f1,
0x6a1ab52b,0x6a29694a,0x6a302d56,0x6a30ba40,0x6a35b328,0x6a3bd817,0x6a46e3bb,0x6a58144e,
0x6a61e1b8,0x6a7a7574,0x6a80564b,0x6a81079b,0x6a82c08c,0x6a872c8a,0x6a88465e,0x6a898498,
0x6a8c010c,0x6a9976f1,0x6a9ab52b,0x6a9efcc3,0x6ab02d56,0x6ab5b328,0x6abaac10,0x6ac420d2,
0x6ac49de0,0x6ad8144e,0x6af18d9c,0x6b01dafa,0x6b02c08c,0x6b08465e,0x6b0ba864,0x6b1048a4,
0x6b1976f1,0x6b1efcc3,0x6b1f9be0,0x6b263398,0x6b2aa784,0x6b302d56,0x6b35b328,0x6b4420d2,
0x6b555165,0x6b5d9a20,0x6b66daa0,0x6b718d9c,0x6b81aea6,0x6b82c08c,0x6b88465e,0x6b8ba864,
0x6b8c1b2d,0x6b98d7d4,0x6b9976f1,0x6b9efcc3,0x6b9f9be0,0x6ba370af,0x6ba63398,0x6bb02d56,
0x6bb52a35,0x6bb5b328,0x6bba2714,0x6bcbca70,0x6bd5da58,0x6bdd9a20,0x6bf18d9c,0x6c02c08c,
0x6c08465e,0x6c0a8054,0x6c0b9d4f,0x6c0dcc30,0x6c1976f1,0x6c1efcc3,0x6c1f85b6,0x6c2370af,
0x6c263398,0x6c352a35,0x6c35b328,0x6c3a2714,0x6c55da58,0x6c5d9a20,0x6c718d9c,0x6c82c08c,
0x6c83dd87,0x6c84ef6d,0x6c8a8054,0x6c8b9d4f,0x6c8dcc30,0x6c96b408,0x6c9859f6,0x6c9976f1,
0x6ca063c2,0x6ca370af,0x6cb52a35,0x6cba2714,0x6cceed87,0x6cd5da58,0x6cdd9a20,0x6cf18d9c,
0x6d001ee2,0x6d00d09a,0x6d01aea6,0x6d02c08c,0x6d032bcf,0x6d039383,0x6d05a877,0x6d06ab85,
0x6d0a8054,0x6d0aa556,0x6d0b9d4f,0x6d0db243,0x6d1e73d0,0x6d1f9be0,0x6d2063c2,0x6d2370af,
0x6d3a2714,0x6d433b40,0x6d4610c4,0x6d4e1a90,0x6d4eed87,0x6d55da58,0x6d5d9a20,0x6d69a8d2,
0x6d809cc0,0x6d80be19,0x6d80d09a,0x6d81aea6,0x6d830a90,0x6d839383,0x6d84a1a6,0x6d85a877,
0x6d86a070,0x6d86ab85,0x6d88ff68,0x6d8a8054,0x6d8aa556,0x6d8db243,0x6d97747e,0x6d9e73d0,
0x6d9f9be0,0x6da063c2,0x6dbe9b00,0x6dce1a90,0x6dd5da58,0x6ddd9a20,0x6de9a8d2,0x6dfa7ce0,
0x6e00089e,0x6e001024,0x6e0038dc,0x6e00be19,0x6e011318,0x6e023f05,0x6e030a90,0x6e039383,
0x6e053d00,0x6e05a877,0x6e06316a,0x6e06a070,0x6e0a8054,0x6e0aa556,0x6e128a20,0x6e17747e,
0x6e1e73d0,0x6e2063c2,0x6e3e9b00,0x6e55da58,0x6e5d9a20,0x6e682b9c,0x6e7a7ce0,0x6e7c9940,
0x6e801024,0x6e8038dc,0x6e80be19,0x6e818d5a,0x6e827688,0x6e839383,0x6e85a877,0x6e86a070,
0x6e87e623,0x6e8a8054,0x6e8aa556,0x6e8f0a77,0x6e928a20,0x6e9e73d0,0x6ea063c2,0x6eadf360,
0x6ebe9b00,0x6ec447af,0x6ed5da58,0x6edd9a20,0x6edf02fa,0x6ee82b9c,0x6ef9be45,0x6f0038dc,
0x6f039383,0x6f05a877,0x6f06a070,0x6f09617e,0x6f0a3cc8,0x6f0a8054,0x6f0c9548,0x6f0f0a77,
0x6f128a20,0x6f1e27f1,0x6f2063c2,0x6f2e20b5,0x6f4447af,0x6f55da58,0x6f5d9a20,0x6f5f02fa,
0x6f682b9c,0x6f79be45,0x6f84e9dc,0x6f85a877,0x6f8a3cc8,0x6f8c9548,0x6f9b10d6,0x6f9e27f1,
0x6fa063c2,0x6fa98c64,0x6fae20b5,0x6fb137d0,0x6fb49fe1,0x6fcf5b2c,0x6fd5da58,0x6fdf02fa,
0x6fe82b9c,0x6ff9be45,0x6ffe5296,0x7004e9dc,0x7005a877,0x700a3cc8,0x700ce63e,0x700ffd59,
0x701c8e0c,0x702063c2,0x70298c64,0x702ccbfa,0x703137d0,0x70349fe1,0x704f5b2c,0x7053ef7d,
0x7055da58,0x70572f13,0x705f02fa,0x7079be45,0x707a7ce0,0x708038dc,0x708453bc,0x7084cd2d,
0x70851257,0x7085a877,0x708a3cc8,0x708ce63e,0x70928a20,0x70973b20,0x709b8461,0x70a063c2,
0x70accbfa,0x70b49fe1,0x70d5da58,0x70d72f13,0x70e876ac,0x70f9be45,0x70fa7ce0,0x710038dc,
0x7102464c,0x710453bc,0x7104cd2d,0x71051257,0x710582ef,0x71087a68,0x710a3cc8,0x710ce63e,
0x710dc76e,0x71128a20,0x71173b20,0x711b8461,0x71235848,0x71468380,0x71572f13,0x716876ac,
0x7175046c,0x7179be45,0x717a7ce0,0x71851257,0x718582ef,0x718a1740,0x718a3cc8,0x718ce63e,
0x7196a500,0x7196ca88,0x719b8461,0x71a35848,0x71bfa09a,0x71c5e77a,0x71c8dc00,0x71e22fcc,
0x71e876ac,0x71f5046c,0x71f9be45,0x71fa7ce0,0x720582ef,0x720a3cc8,0x720d56d6,0x7216ca88,
0x721b8461,0x72235848,0x7224e54f,0x722e5901,0x723c73c8,0x723c7d2a,0x723fa09a,0x724c2e5a,
0x72622fcc,0x726876ac,0x7279be45,0x728408ac,0x728a3cc8,0x728d699a,0x728eed3f,0x728f0965,
0x7296ca88,0x7299edf8,0x729b8461,0x729b8dc3,0x729d1168,0x72a35848,0x72acc749,0x72ae5901,
0x72b00b90,0x72bc7d2a,0x72bfa09a,0x72c455c2,0x72e24290,0x72e6e4f4,0x72e876ac,0x72f9be45,
0x7303f137,0x73064bcb,0x730a3cc8,0x730d64e9,0x7316ca88,0x7319edf8,0x731b8461,0x731d1168,
0x731d1aca,0x732cc749,0x732e5901,0x733fa09a,0x734455c2,0x73661c18,0x7366e4f4,0x736876ac,
0x737b5e10,0x7383f137,0x73864bcb,0x73896f3b,0x7396ca88,0x7399edf8,0x739d1168,0x73abfe6d,
0x73bfa09a,0x73c06976,0x73d2de59,0x73e5533c,0x73e61c18,0x7403f137,0x7406b039,0x741083a8,
0x7416ca88,0x7419251c,0x74195753,0x7419edf8,0x7422941d,0x742bfe6d,0x742c9512,0x743fa09a,
0x7452de59,0x7465533c,0x7465b7aa,0x74661c18,0x748291b6,0x748550b8,0x7486b039,0x748fd18f,
0x749538d0,0x74985c40,0x7499251c,0x74995753,0x7499edf8,0x74ac9512,0x74b61ad6,0x74bf6e63,
0x74bfa09a,0x74d2de59,0x74e61c18,0x74efa1dc,0x750550b8,0x7506b039,0x75080fba,0x7508f40a,
0x750ed67c,0x750fd18f,0x7511c7b5,0x75121560,0x75149471,0x75185c40,0x7519edf8,0x751b7fb0,
0x752c9512,0x75361ad6,0x753addb8,0x7552de59,0x75661c18,0x756fa1dc,0x757927a0,0x7586b039,
0x758fd18f,0x759003c6,0x75949471,0x7599edf8,0x75a80467,0x75ac9512,0x75b3b965,0x75b61ad6,
0x75baddb8,0x75c00508,0x75d07ce8,0x75e61c18,0x75efa1dc,0x75f927a0,0x7603ea5a,0x760501f7,
0x760fd18f,0x761003c6,0x76149471,0x761bb8c4,0x761e4c6c,0x762426eb,0x76280467,0x762c9512,
0x763157f4,0x7633b965,0x763addb8,0x76400508,0x76507ce8,0x76531090,0x76661c18,0x766fa1dc,
0x767927a0,0x7683ea5a,0x768501f7,0x7686e270,0x768c264a,0x768f5097,0x768fd18f,0x76911b63,
0x769bb8c4,0x769c5dae,0x76a426eb,0x76ac9512,0x76b157f4,0x76b3b965,0x76d07ce8,0x76d31090,
0x76d84625,0x76e00f62,0x76e61c18,0x76efa1dc,0x76f927a0,0x7701bb20,0x77045d0d,0x770501f7,
0x770722ec,0x770c264a,0x77123300,0x771c5dae,0x772426eb,0x772cf980,0x773157f4,0x7736bfc0,
0x773e3688,0x77507ce8,0x77584625,0x77600f62,0x777255c2,0x777927a0,0x7780f41e,0x77824e11,
0x77845d0d,0x77885ac7,0x778c264a,0x77923300,0x7792d7ea,0x779c5dae,0x77a426eb,0x77a47960,
0x77a7d230,0x77abf028,0x77be3688,0x77d07ce8,0x77d84625,0x77f255c2,0x77f927a0,0x7800f41e,
0x78024e11,0x78076368,0x78090fd0,0x780a174e,0x78123300,0x78133a7e,0x78184fd5,0x781c5dae,
0x7828b883,0x782bf028,0x783e3688,0x784f22f5,0x78507ce8,0x78584625,0x785cd7bd,0x787255c2,
0x7880f41e,0x78824e11,0x788ea8e6,0x7890f1b2,0x78933a7e,0x78967223,0x789c5dae,0x78a8b883,
0x78abf028,0x78be3688,0x78c07f54,0x78d07ce8,0x78d84625,0x78dcd7bd,0x78f255c2,0x7900f41e,
0x7902356c,0x79047e38,0x7906748f,0x790ea8e6,0x7910f1b2,0x79123300,0x7915834a,0x79167223,
0x7919a9c8,0x79266fb7,0x7928b883,0x792bf028,0x792e6e81,0x793e3688,0x79407f54,0x794759b8,
0x79596a8b,0x797255c2,0x7980f41e,0x7987ce82,0x798ea8e6,0x79905f7f,0x7990f1b2,0x79921618,
0x7995834a,0x79967223,0x799e70ed,0x79a66fb7,0x79a8b883,0x79aa6f1c,0x79abf028,0x79ae6e81,
0x79b51358,0x79be3688,0x79c07f54,0x79c2c820,0x79c759b8,0x79d8d858,0x79d96a8b,0x7a001d8c,
0x7a007a32,0x7a007ed3,0x7a011106,0x7a07ce82,0x7a0b3bb4,0x7a0ea8e6,0x7a105f7f,0x7a121618,
0x7a123300,0x7a1e70ed,0x7a227052,0x7a266fb7,0x7a2a6f1c,0x7a351358,0x7a394c00,0x7a39a4f0,
0x7a3e3688,0x7a407f54,0x7a42c820,0x7a4cabd6,0x7a58d858,0x7a7ccbab,0x7a85e996,0x7a8b3bb4,
0x7a8ea8e6,0x7a8fcd4c,0x7a905f7f,0x7a921618,0x7a9675c0,0x7a96d603,0x7aa2a242,0x7aa66fb7,
0x7ab3c09f,0x7ab9a4f0,0x7abe3688,0x7ac07f54,0x7ac2c820,0x7ac69595,0x7accabd6,0x7ad8d858,
0x7afccbab,0x7b0fcd4c,0x7b105f7f,0x7b1675c0,0x7b22a242,0x7b282650,0x7b33c09f,0x7b407f54,
0x7b469595,0x7b4cabd6,0x7b522fe4,0x7b58d858,0x7b61b0a0,0x7b84ac38,0x7b84c530,0x7b8662d1,
0x7b878737,0x7b8d8480,0x7b905f7f,0x7b932186,0x7b95515a,0x7b955dd6,0x7b9675c0,0x7ba2a242,
0x7ba82650,0x7bbc1330,0x7bc07f54,0x7bc69595,0x7bd8d858,0x7be1b0a0,0x7bec3305,0x7beee890,
0x7c004014,0x7c019f49,0x7c03a708,0x7c046150,0x7c04ac38,0x7c04c530,0x7c05e996,0x7c078737,
0x7c089f21,0x7c0bffd7,0x7c0d1183,0x7c0d8480,0x7c132186,0x7c155dd6,0x7c1675c0,0x7c22a242,
0x7c282650,0x7c3081c0,0x7c3c1330,0x7c42c820,0x7c58d858,0x7c6c3305,0x7c7f01bd,0x7c802ab9,
0x7c804014,0x7c817734,0x7c81d4d6,0x7c827626,0x7c83a708,0x7c83c63e,0x7c84c530,0x7c85e996,
0x7c87a66d,0x7c889f21,0x7c88a87e,0x7c8bffd7,0x7c8d0e64,0x7c8d1183,0x7c8d8480,0x7c932186,
0x7c9675c0,0x7ca82650,0x7cc2c820,0x7cd50e80,0x7ce62940,0x7cf80bc0,0x7cff01bd,0x7d004014,
0x7d0079e7,0x7d007dda,0x7d008bf8,0x7d010391,0x7d0105dc,0x7d011b0c,0x7d015b1d,0x7d017734,
0x7d0183b0,0x7d03a708,0x7d04014c,0x7d04c530,0x7d050fd9,0x7d05b700,0x7d085ab6,0x7d08a87e,
0x7d0bf500,0x7d0d0e64,0x7d0d1183,0x7d0d8480,0x7d0f1400,0x7d1675c0,0x7d1f6700,0x7d662940,
0x7d7f01bd,0x7d800de5,0x7d804014,0x7d80446e,0x7d8044e2,0x7d8079e7,0x7d808bf8,0x7d80e164,
0x7d8105dc,0x7d814d31,0x7d815b1d,0x7d817734,0x7d8183b0,0x7d83a708,0x7d84014c,0x7d850fd9,
0x7d885ab6,0x7d8bf500,0x7d8d8480,0x7d8f1400,0x7d9675c0,0x7d9f6700,0x7dd37f00,0x7de62940,
0x7dff01bd,0x7e000b08,0x7e000de5,0x7e0020a9,0x7e002bae,0x7e004014,0x7e00446e,0x7e0044e2,
0x7e007654,0x7e00e164,0x7e014d31,0x7e015b1d,0x7e016d98,0x7e0183b0,0x7e029800,0x7e03a708,
0x7e0d8480,0x7e0f1400,0x7e1675c0,0x7e1f6700,0x7e3919f2,0x7e3b73c9,0x7e3dcda0,0x7e402777,
0x7e537f00,0x7e774400,0x7e7f01bd,0x7e804014,0x7e8044e2,0x7e80e449,0x7e814d31,0x7e815b1d,
0x7e819ed0,0x7e835940,0x7e83a708,0x7e8d8480,0x7e9675c0,0x7e9f6700,0x7eb46644,0x7eb919f2,
0x7ebb73c9,0x7ebdcda0,0x7ec02777,0x7edd3800,0x7f003f2e,0x7f0044e2,0x7f00c198,0x7f00e449,
0x7f014d31,0x7f015a09,0x7f019ed0,0x7f02d6a8,0x7f03a708,0x7f074cb3,0x7f0e5a38,0x7f1675c0,
0x7f1f6700,0x7f2afee8,0x7f346644,0x7f3919f2,0x7f3dcda0,0x7f3e4f80,0x7f402777,0x7f5d3800,
0x7f6f9adf,
};
