//! Generated by tools/gen_golden.py with OpenSSL 3. Do not edit.
//! `want` is the hex SHA-256 of the output bytes.

/// (kind, times, len, tail, thorough only, want)
pub const SHA_HUGE: &[(u8, u64, u64, u64, bool, &str)] = &[
    (6, 512, 1048576, 77, false, "7c0eace750b363491b6a61a7a729a0b123b6062386ca826bbc8ac8e48fbbd4d6"),
    (1, 511, 1048576, 1048567, false, "0dd3d17d3b209eefeceaa35d82ca86c194154d1389515e6cef8da09b931095ff"),
    (6, 4096, 1048576, 1, false, "0f866dcb666dc3d6553887fe29725317cfa1339dfa337d138da0bbbea43d8a95"),
    (1, 1, 4294967299, 5, false, "43a32f2b47bcea2e013b9067dfd9ee5bc5c97a445045c26ec9a1caab7c98fc66"),
    (6, 12288, 1048576, 200, true, "4b83b0da3d45535ed900e9a73345bf29b6f6f02e1bf4d4150be1ae4143eab269"),
];

/// (key length, times, len, thorough only, want)
pub const HMAC_HUGE: &[(u64, u64, u64, bool, &str)] = &[
    (32, 512, 1048576, false, "ec7fb1b4523628f17c8b3ded5f2c2700e99851d3be1e2962a5b97983c6efdb4c"),
    (100, 4096, 1048576, false, "e39a80ff0ea838390156be4fb1df68b1f7b58bca6a15bf73552887cf33f99de6"),
];

/// (c, length, thorough only, want); password "Password", salt "NaCl"
pub const PBKDF2: &[(u64, u64, bool, &str)] = &[
    (1, 20, false, "ec92eae6ea20eaf5b855da04c95a1ecef34667d4dd374b5703ec9a803a496427"),
    (80000, 64, false, "eee6849b8aa1743d98a3d1608bc5ca0efd5c7399cd8235a9f9df1dc3f936ea44"),
    (1000003, 33, false, "11a5c849f9f6790261c62782c6d5b3f9feb9ac0bfda048697eccb9d9cc084f93"),
    (16777217, 20, false, "945fd885bbfcf46839739988b3ba1c05b04f1d579f11a7b8dd4e3e1f47f0be5a"),
];

/// (r, n, p, length, thorough only, want); "pleaseletmein", "SodiumChloride"
pub const SCRYPT: &[(u64, u64, u64, u64, bool, &str)] = &[
    (8, 16384, 1, 64, false, "7f9ae009f7afe14baf489a165cf9826b373c49dea62199646024c78ec9cb12b2"),
    (8, 16384, 3, 64, false, "26e0e9df91e0643c95c2f7f07ceeebcf3e7e7fa826aa6d1455c9b8c37304bc41"),
    (1, 16384, 16, 32, false, "81262a7c414e94728c935858f02f1de8e1aec8261b57c737841280f67a09af94"),
    (8, 131072, 1, 64, false, "ca2de0ecb9de11648d5dc25979e93048c9675023a32ddc6f8597f854c2d81077"),
    (2, 1048576, 1, 64, false, "34b737c263a2e24d2592b821295c3b634cb98beeeb223db32b39bddbe4bdc210"),
    (2, 4194304, 1, 64, false, "6f45136ca25a65066d197675ba6550772ce14665eed8a3ef61faabc5b9301281"),
    (8, 1048576, 1, 64, true, "bd84c7977b18c81f7d5d1aeefb1ed2afe4d531634eb437b0d1fe621467609375"),
    (2, 33554432, 1, 64, true, "be58a7a60b94128c74aa8e6ca2eca33695575c66f25677bad5b2e7469c375e29"),
];

/// (data seed, length, hex digest); data = generate(4, seed, length)
pub const SELF_SHA: &[(u64, u64, &str)] = &[
    (0, 0, "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"),
    (1, 1, "4bf5122f344554c53bde2ebb8cd2b7e3d1600ad631c385a5d7cce23c7785459a"),
    (2, 2, "ee9040f65c341855e070ff438eb0ea9d5b831b2a2c270fb7ef592d750408e3b3"),
    (3, 3, "2848698aa4b3431e3db06c343ca2cb0455f8aaf16c85cdd828c92ddf7dc134f8"),
    (4, 4, "c6d44cf418f610e3fe9e1d9294ff43def81c6cdcad6cbb1820cff48d3aa4355d"),
    (5, 5, "761ca8fd7dd51248e00a7dc1c746bbde94e51cb06aa67194843c495a863e0106"),
    (6, 6, "e83733f934d0ff090db2edddb0e0d115ddab96772ca977586736e4c4080cd869"),
    (0, 7, "57355ac3303c148f11aef7cb179456b9232cde33a818dfda2c2fcb9325749a6b"),
    (1, 8, "66840dda154e8a113c31dd0ad32f7f3a366a80e8136979d8f5a101d3d29d6f72"),
    (2, 9, "796346a06db40e358314e60bbd8a2756c028539ac1f18a2b30bd23502715da3b"),
    (3, 10, "a44c3a8cbfb06133e43724623375242c7563daf91cd434071efaa45e55ca3362"),
    (4, 11, "81cb29c972c7d12e5ff2c0a39e26c97036bf215080cdc484e0976c8d6e67b0f2"),
    (5, 12, "135c28935414b9a3a6bbf9e8db71630438161396c0e4e4136d8e3005a77f6df3"),
    (6, 13, "3978ba1087b4950114b04de71be39f4d277d1ed310a474f2c4f9e57447813b80"),
    (0, 14, "ab107f1bd632d3c3f5c724a99d024f7faa033f33c07696384b604bfe78ac352d"),
    (1, 15, "36030fcc7e566294905b49a720eb45bf962209d2ee1c9b73e2b7bc7ae8830376"),
    (2, 16, "c86af8bd34a63b5f96146c67e4210cbae82f06a88c29a56ad2b7d41d26671e3c"),
    (3, 17, "377b5ef50897b202a242d3cfccdf04ad730cb50ec04447e6e55f809db75f6ec8"),
    (4, 18, "1f32fc2b63b8d9b2907076efd2723925b05e9b5c607d28ff8e6906bf8f5662a4"),
    (5, 19, "5c8df8ed4559124beb347420fa2914b5b54b67b819f50de9c9500af250b10de8"),
    (6, 20, "c0bfdc1c570b958aa8cd9c69cd667318d5e0f0eaaff6125947e31d630bec0039"),
    (0, 21, "75aee9dcc9fbe7ddc9394f5bc5d38d9f5ad361f0520f7ceab59616e38f5950b5"),
    (1, 22, "0126bd851ebd9c69516764c1027d09a562c09ff26496b21df4efd538ac176eae"),
    (2, 23, "8c31bf5b7a7d7fb225c1f3a72d2457351e5f3c2ba736347048c82aa473ee7621"),
    (3, 24, "869c47c6317db1f88367aacc8ca6a9d6d6264896e3631f14a854878377a46083"),
    (4, 25, "28409d9589d8abd5de40ef568287345994279fece71d3f3a0129c4b871570422"),
    (5, 26, "10ec013f32918273030901781b3d203e64e87b4d18f2ce166ef5b8883bf65fbd"),
    (6, 27, "e07be0d635855a5a9eb7e320317ea1916beb99dba3ef3f8f1a445a0655a35993"),
    (0, 28, "dc27f8e8ee2d08a2bccbb2dbd6c8e07ffba194101fc3458c34ded55f72c0971a"),
    (1, 29, "edb6262443817e08b57c7b0ee2d7a7f39296899be1cceed5fb6eb7f55a0f13c5"),
    (2, 30, "1356eee1cafc039a196a57ae8d54b093bc8b099030aad46c4cdf44695c8f09f0"),
    (3, 31, "9715f57bd9ce34bfa8163307ef57f2526ba234ebd2a72a73e8e16586e95a2942"),
    (4, 32, "5346eb1db5d4f5a3987a9ef601acc8f70806aeba8bc0fc91b004ac3cb407aa94"),
    (5, 33, "88110fed43ff8ef12685b74e9aa26346d45d32789edf152759fde10304a5d718"),
    (6, 34, "a366aabfd628ed53c69adf3cbeeedcdd380c3ce7cc7d0d09fe3fc86dd227000d"),
    (0, 35, "f12dd12340cb84e4d0d9958d62be7c59bb8f7243a7420fd043177ac542a26aaa"),
    (1, 36, "8b41c7e76c8dc13ab3022aaba22986beccf11dbc6c2164085bf42fc32b1d929c"),
    (2, 37, "37c466d0938563716e8a10d912f08796409b394f698fd11e3a722396d4a76a34"),
    (3, 38, "47d8304a9f091128c72e6cfd5245196bef7b9b277b86b828482684e283ae3b4b"),
    (4, 39, "65566429c557f474450336491eacb9ca9d7cb833c617929e805193d0fe411a55"),
    (5, 40, "e9d0e86acbfe59f2ced766b6ca9e844b2b6ab97ca14f135cfa7bace6943a58cb"),
    (6, 41, "41aff672e30c849bc3b4136304258bb37db7ed73cc8855a66d38043897b24dd3"),
    (0, 42, "40a1ed73b46030c8d7e88682078c5ab1ae5a2e524e066e8c8743c484de0e21e5"),
    (1, 43, "84a004e4df5e41876815f825f801df5b2df7dc548683c923621173806baec7a0"),
    (2, 44, "a97668ca972c80856a90cf89294493aaa30118a088212a75657f5080345b99a9"),
    (3, 45, "99ac4cc80dddb1263a4c713e5a61c274e02d22c34089d6f525860e82815c3ac9"),
    (4, 46, "387a2a823f3d4ed2656bca27d1a4f6524f26407ea034ca907f44b0b836b7ec65"),
    (5, 47, "34121f2aa4ea869bfa6548be9e2807399668477f3d4384d46bda40c6b8b183fd"),
    (6, 48, "bf209a5ad5aaa39607822071d4053b3932561dd6c0851a8bb8a47a2efcd4cf1e"),
    (0, 49, "7509fe148e2c426ed16c990f22fe8116905c82c561756e723f63223ace0e147e"),
    (1, 50, "21ab8b865e56efd6c022316c986fa031263adaca693f591f37f059f900b8abc6"),
    (2, 51, "7c64bbba99f72bc36f79f2199714483bebdb63f16e85633376ca1b02c9d21485"),
    (3, 52, "6afee5748d2887347bfbfe784100d303b2183025bd96bac695ed77f8b5b06d4e"),
    (4, 53, "4c6c89842b7d7c719761372c4952864aa54ab50436fc70dc4630b34499085e7c"),
    (5, 54, "af66b3ca864980c557031796e5f510105713c458e036fa9b0acdf0504e7820b8"),
    (6, 55, "0945cbdaac6fb5b0ff89edc785d77787957ba0a04e740f84ebb2167796bc5dd4"),
    (0, 56, "da2ae4d6b36748f2a318f23e7ab1dfdf45acdc9d049bd80e59de82a60895f562"),
    (1, 57, "341f5913cf2e65f39e1ed9ef205b18ec900b20873a49b3cfe8211fdd5213d7f6"),
    (2, 58, "c318bd70e0e02e386c1108315946cde3c48a2756c5b2eb8ef47e98e9d015043e"),
    (3, 59, "6969491ee2980d6b349372567cc0f7c1d2943352a45b7cd340f2c5fc3eb4d62c"),
    (4, 60, "e7936a7ecde86e4a0ef6c365e29d7b265de5b16208dc2e9dac1d1a0312fb28ad"),
    (5, 61, "04996be7828afcd2846a2ee5ed0e3e2db14b822cabbc1e59df57ed354f4e9585"),
    (6, 62, "77b08bc3c36adfe8ebd2605aaa3094ab2ecba0ce81bed69f6b9571673e3f95ee"),
    (0, 63, "29af2686fd53374a36b0846694cc342177e428d1647515f078784d69cdb9e488"),
    (1, 64, "20a7ec84684f7fe124cb3727d049734ab0b7da2f52fcafbcef989ecfd91e870b"),
    (2, 65, "e79f89f12aaf5a1387e21ed4be3afca7b97dcce9f79b8ace0483c85ad31c01bd"),
    (3, 66, "2c63541af63e8041ed4d3011dc7df25e88665f658de38638c95a863191204ea7"),
    (4, 67, "2da8848fd814311de01a6fa62c009c693ed55170fa410e4e8888208a2d147e24"),
    (5, 68, "fd2d6a374a456f6d546871ea94a3aa7a635db13ee528baaa566d06e68fe90126"),
    (6, 69, "6104350da1799d7eeddddf493a59831ff2b8c5a78745959d0b697f90ae26b1a1"),
    (0, 70, "5767d69a906d4860db9079eb7e90ab4a543e5cb032fce846554aef6ceb600e1d"),
    (1, 71, "335e290ad0ea12925f072f43a2285903818db5cd8b684b054d49f5230800b7f3"),
    (2, 72, "2ddcdbce7ed149db562a3cd1b571dfc78d4b7741d5818ddb8f29a387d02e0419"),
    (3, 73, "0c9e5d82245f851a53c03780b1ca2e5ef306435f12bd9984566c32b3b5a2660e"),
    (4, 74, "1976cc7fe37ab8a4a54d9ad204109b3337ae4f08ec47f56024a885a747d0a134"),
    (5, 75, "c5ae3261da248b3ac959e0ffa6bdd70f665b839d4ed57c397f9ee182d8cfaf54"),
    (6, 76, "d4e117ffe52a35a2253417bb8369ace4c8a3c3c6866dcbb6da45687f4d947d28"),
    (0, 77, "5ce02376cc256861b78f87e34783814ba1aec6d09ab500d579ed8ee95c8afcc8"),
    (1, 78, "2cf1345808b98697563eb36832a0092a5391cd97c8f0bccbcdf3e64870e3eb1f"),
    (2, 79, "95f29d5af717f43a4c111e8ce5d34d6395a88377c009c1b523589167f5cab14c"),
    (3, 80, "7b8fcd05df8f64b178cc4ce0412a44ef5ba4060372b1175975c7917e84643d1c"),
    (4, 81, "4a4a7291764dfa920e3f9693d8ec2054124fcdb75ec2df257c556ca991c13f32"),
    (5, 82, "bd9d0e98eec060c1db6de35da00b7122d0003ca21b2d1b659d0df63a4657067a"),
    (6, 83, "4856375c227859e262cc8c076fb7e39941970cbd058bec6dcfd01f6073ed7f42"),
    (0, 84, "4e3033562ad74a7d43eb5ff5fc2382622c6307cb10e245ad62da77c4c63cb178"),
    (1, 85, "b8f3d6db0b426c34044de61203b4bb6f14cf8d6ac463779f4333f9b7f2b1e62b"),
    (2, 86, "3544860dd30bbc2af3608629d6a11725f7a4b6fc84914e7ebce19881bb42058d"),
    (3, 87, "c22dedea6b9ade3ea2ba8799be11c001d6abb6fd39c4203f716be979952b28e5"),
    (4, 88, "ea291e035c0192f477ab83efe11197f296d5c2f2adfd45344506b9c2730437ae"),
    (5, 89, "115115e38909114e02daf8baa6730b128ccb4ef4b4924a943dd01651de3bb663"),
    (6, 90, "ced0b0ef4dfc75b333769798f4f42a2c6e92f8a6da15c41a3756dc287a8ef477"),
    (0, 91, "58d29459b2130a2e151252d408b95e6dac424c564062eb911cc76440cb926ca0"),
    (1, 92, "01e6356562402e6933591bf3d689b451965d3bfea689051346e0aa87f541ea85"),
    (2, 93, "06fc9a69f3bb5a138ce81ccd6d28f3c6f934deb9e8089e7a10aba86a616425fb"),
    (3, 94, "4c93d098f4ef58ff6f93f0d02c9c0f79b22d7b83843210c8e8d40cb1b629d911"),
    (4, 95, "62b4279351241cdcf502b784d9a9060563d31d9da1cb557d68b913a8ad951e2a"),
    (5, 96, "ef30102eff0467a4093b76d1a9cb14010e9cfaf3a6c5f4ccbcfce781b0231049"),
    (6, 97, "8dca6344169c767acecb208b2253656e85cf37d698aeb6fb0c5946b761d4bc9c"),
    (0, 98, "b4f5d9b1555994c5ebaebd82918d560a3bf82962a171a1614e7551939e943366"),
    (1, 99, "1a80377d379a730d1c0e137c9caae9c6c619fa6a07e7fc02d5cf5f21591d5171"),
    (2, 100, "e1677392160bbb1187d0b0365cc55cc3ed00135f669ca558a58778043c5d3bfd"),
    (3, 101, "ff85778f86e391b7d2168d15d5f06bbbfa1a5d4b4c106e8cdfea09ec8109309b"),
    (4, 102, "5bc2ff01909520e90c7cfa2e4412ae0a94cc56a21ca001deec9a09d034aa1539"),
    (5, 103, "ed1e70d332d3d40df64049dd36a339f6febef3df34d996f47ae768a71c6c4ccb"),
    (6, 104, "690264dfbdbd09f8e33562aa8c28b6ec2356199ba910fff9f37f2d57df44e152"),
    (0, 105, "98545371a3d9981abe5ab4a32a1d7b2fadd9801d89da52a94a4f78a42740d21c"),
    (1, 106, "52696e1c5b805a2cad79c4a104c515ae0132b7ab6f8da0a0173731e76ea64d42"),
    (2, 107, "2bc64eefa7512798bb98c3f1cca67bde2b23845133ceba3909a2d801014dc2a3"),
    (3, 108, "fa13845f36cd1928342c804e0473653dfda0de01f3616b7057d7ca7b8910ce35"),
    (4, 109, "acf2034f1f9108e649c0917ef9fa7a81827448a9955262ff687a4b54eec4cdbc"),
    (5, 110, "fea7457b6cdc1f938faac28f7ed89d91357a1085415ff4b6bb8c718cb5186a3a"),
    (6, 111, "a612628d9b9c3ead82bc8de94b49a35ab4a465dc7286776310ba47d5ebb41f15"),
    (0, 112, "09373f127d34e61dbbaa8bc4499c87074f2ddb10e1b465f506d7d70a15011979"),
    (1, 113, "0e8b6545c1164e6ee239716be3c8c79da0b354a0c26dd7928dd3bef465dd8489"),
    (2, 114, "70184bf00a9caf9d2fa8158ee4a29963253370ddfdad44f15027812961c347a2"),
    (3, 115, "e2476c9e49544c80e70198b22f238ec64e137d59f88da379a3ea799ef82d8ab1"),
    (4, 116, "5fcf0bf8b01fe899f7038fb7629eb89dec51a6e6660de4a2bb652925506e700d"),
    (5, 117, "d1c8f150401513036569fab38ec29623d0d81dfdbf8dff257f343c9cd23c65d1"),
    (6, 118, "ac5e55f4e8c41d4dcd011de019806f10664c8ad4bc891c59a22cb1e6f75f4193"),
    (0, 119, "da18797ed7c3a777f0847f429724a2d8cd5138e6ed2895c3fa1a6d39d18f7ec6"),
    (1, 120, "1ea7bb62d3612f7a329f5717c7fbd59101486a2c0ed3e8d1799f1fee0c8c10fe"),
    (2, 121, "cf88126d1a98ef8c52e43ea40a44f86f947d58cec27b69305868960009e08e5a"),
    (3, 122, "803e87c20847461340356feaf60bada1a29896e9450ab5d92701801ca595dbec"),
    (4, 123, "6460613ab14a5059d5e4fc00ae75fef95b1ec71d5ba28339161a788565dc1a86"),
    (5, 124, "e859b8dd0a5bf6c31d3323756c431f00a9bbbd90e20e3b42a772cf6addc9e672"),
    (6, 125, "8b522fca929fee08d794aa0f89750d04e0b6d1edf3a9b82b6c5ba5779eba94d7"),
    (0, 126, "5dda7cb7c2282a55676f8ad5c448092f4a9ebd65338b07ed224fcd7b6c73f5ef"),
    (1, 127, "2270f8b0f17a3ace93d442d504b0abb324e6e5e8c26b3ee5d9be69f33b77e863"),
    (2, 128, "e3c809de22da591f408c1ba36648b0e592823e468f3fe03633ec5a4d61d81716"),
    (3, 129, "b4b5e143957862f70442e79bcad8b2c8af6953d4a84490e9ec9f33e9c9f4304e"),
    (4, 130, "70e7d8f4e425a41c98b950b153e5a019cfc527adcc2acee389db078728265c7d"),
    (3, 255, "93b5cf599a812a1084cda71b027056656938ccd7b940b89e23238aa8ececcea9"),
    (4, 256, "c02743e5c74f59ae08f044acb02d7f117334bbeb9fd63d7fe6a319162b752486"),
    (6, 1000, "a9b58da6061e7cfd20f7999bdedff5e1b3b9f30e70181aa6ebc0381d357e6bba"),
    (2, 4097, "d5518fff16f91cbf058951ad466582e813573687b3797e4b127e6675f67e5f2d"),
    (1, 70001, "94405886d5ea9e3cbf8b18e70903d01e0198eb1f2e10ca2824940a90619f8392"),
];

/// (key length, data length, hex mac); key seed 1, data seed 2
pub const SELF_HMAC: &[(u64, u64, &str)] = &[
    (0, 0, "b613679a0814d9ec772f95d778c35fc5ff1697c493715653c6c712144292c5ad"),
    (0, 1, "4ee7be0c7872360ca67414608081e9bd60fd580a7bbd209701d2a5a0b4316d0d"),
    (0, 55, "45d04be1730b7763636d6ac41bba4cc090c5dba71cdc2e8e467f537c2f2948e0"),
    (0, 56, "edeaa47de8695ad409ccfb3c51069a0d7ad189453ecd8f07f2b5aec5bdcbfa83"),
    (0, 64, "ae03dc07b0627d9989cadaf88267fffa2563de217de324bc90848d0072d95465"),
    (0, 200, "7b7e6fdba559cc0fe74b30b7155c23eeea8d563b1e428fc0506a1d712c111e57"),
    (1, 0, "2f8738164025afdddbc18665c6e8f37de9498db7fd194873c61ee30c22192a9a"),
    (1, 1, "6c34e84f57d4a9940c962b152acfbd28fb6f78f2090ca1dce041c36a07cd57ee"),
    (1, 55, "78bdd49165d9527a6b68ac08b5c90123b6f58b74a4933373a6da74d42baa26ae"),
    (1, 56, "231cf86e53f1180208cf4eb680d31c71e7785ef627ca553c3f5410517a9d65a0"),
    (1, 64, "e7163e36459d4b0c9598f973d2396027f967eeb3bcf598a3bfed886ce6270bdc"),
    (1, 200, "03f76255fc64f7ab14cce12466272062901be916fd268272d69cbbc6507c0d79"),
    (20, 0, "3179aeb316fd243cbc7e6fa601a764ed3ca7994cdb98c5c0551bffed181245be"),
    (20, 1, "b39e6fdfbb4b0dcbf7b0299d8978fd21539ddaa1d062de22345b9b0c629771c0"),
    (20, 55, "951db1f7bb466f4884866d7dab87974cedad69b640760847beb08339bcc6ecb9"),
    (20, 56, "0c4c848522b194cdba2b38065982ac15941a96f3d5d9e90fdcd61eaa5adc380a"),
    (20, 64, "d2b5dd06604ed8a524244de54699e399d3fa64200d18c34cd9547d7b2c370019"),
    (20, 200, "2f335e5ec684a46653cbd4f641ff05628f84ab72ba3cdeb7d5db4af3f339aed0"),
    (31, 0, "e31297f3bfcd4cac59def250a61e0bf86838388e381940192b683887fd4e6bad"),
    (31, 1, "5a18b5e71579333c341bc3217f192611c1fac98e82e3a1230ab33d5fb8e50155"),
    (31, 55, "1d066ca4cb7a7cd8d1a0c03ce76eca0253812936045a19b5b7b69080649e2427"),
    (31, 56, "293aeedf780a48f050537b57a8d65a3625bccf422892d80e9b6a22fa297daf8d"),
    (31, 64, "7d44338a7a38a609e845c3222cd3faf372dfc528b6d14037845ba4e3da2bf295"),
    (31, 200, "a0bf66667a89b6f4f271fa8c284802a9468f946a0bf484c1adaf62f82e0405bf"),
    (32, 0, "462476a897ddfdbd40d1420e08a5bcfeeb25c3e2ade6a0a9083b327b9ef9fca1"),
    (32, 1, "c3be13bf45e16a709331a4bf7e37a150232d84f60227cdf491884be860389c74"),
    (32, 55, "5f587ec4537f42e0f4d6633be39b6487d33a6da67c7f5cd7bac0e402389ac747"),
    (32, 56, "90c4f94ab18e1ceb91aba9ae602df3a65497e125239297a93d27437f2904de07"),
    (32, 64, "35a1a85ab4180dce0d7a16b92669fea7fb4bec2209f6c185c430f10ef03f4d6d"),
    (32, 200, "7843c623aa709959d272456eaba80279ffdddd6a2ddb6dfe14f03e05b09b26f6"),
    (33, 0, "010dc14a213f41d39a620827abf374abc3542425c2d7bdb492aba4515c88314b"),
    (33, 1, "4e79938c3066e4b3e0135cc75b86fcdb478f02ffc96f624eec38c77cad4ebef8"),
    (33, 55, "80d7fa038b8c1e7f98432cbb6fcbc16d28b56cdd666a8ff9be432f72aa6db5ec"),
    (33, 56, "48bac832237ac859ffad272586d324f58e52e4097f6fd84e4c07edad5dd9098f"),
    (33, 64, "97c235ff46f344fcc55448cb040f79503ad0ba469c8190b344e06f0a832ad167"),
    (33, 200, "a1ecb5108157ae6e31d29b3cadf7eba6dd0c889bf7bb74df3b6bfb0822e5f606"),
    (55, 0, "261f37d54b2abed6669f40c642009a4e0a5dbda063e7119b7275f3601e1cb08d"),
    (55, 1, "91ac64a39f12e1ec11108bf880f2c28c961424fcbb4744fb69238414740e5a0b"),
    (55, 55, "0837ebba57e5043f7a27831d30806af3176f87a838bead2c17ae29e685f27dfb"),
    (55, 56, "7b5171ee2ad735f3f5e2a336399341c6319e9f381d73c19482b3681eb8ba7b1a"),
    (55, 64, "d4821c8cc06676f826caae9e54be3df937cfe63c0b11e992d3cca2f552556117"),
    (55, 200, "7e5f34e4a661fb3d73abb0f892eba4a3223b469ae2620d00436a6efcd08fa854"),
    (56, 0, "6d1ace0daa8bb81453351b730aa92aece08826b0bc830f6fd9cbaeb432c54808"),
    (56, 1, "9e0ad792ad052797b1180841e77bd49f0f86f4f8d92c6c1ca16bfafffa1e5bd6"),
    (56, 55, "37d685b1a2eee88957e61e4378f28c7380164db2cd970b3f55e06740846141fd"),
    (56, 56, "c668058dbcf960b33defed761f399f645e3e88fcdcbb2021064fabd2623a8337"),
    (56, 64, "8cc94fa5d390e66e3d123e47b5a60a29e7ada5cccfecc75d4c64a527ca906113"),
    (56, 200, "d3496d5c6641c1e0b1874650cc0964415851fc1eadad16b3b03e9d50d0650d92"),
    (63, 0, "6d3f298be7bae388fd14e89cc2343c2aecb21cc32528bbc5fb7b088330411e99"),
    (63, 1, "f9d7e0a697756823f8a5a9e58822aebee931e0fa172aac9d3b820de85d4a1756"),
    (63, 55, "623dbedec22c7bcf83dc5714c29323ff615785c132b526abd700426c286cc532"),
    (63, 56, "546bf057f27569a69c49d0115366756e0e1e84ee731647ea39b4827845777ef5"),
    (63, 64, "e08a6aee28242cf612c02acd114de61d1f57298ed74044649f3d03811280401f"),
    (63, 200, "67eccd7cd7d41404e097b69782e17bd3d53ecf067f970f914c12fb22cf8e7686"),
    (64, 0, "a8bcfb5fbebd6dffec2993621ec46e39b5afa98d5ad06eb65063a2e7e207ba1a"),
    (64, 1, "5d3b7f5951dcf6382b0fa648e0f54b8587f3543afd80dd487d2d387e9d89a5d8"),
    (64, 55, "a6312dcb49e7eb33254abe12c92e9056f9189c8894ba61736176d579b802c3e7"),
    (64, 56, "253de49c4dd81cec3b1688c872693e2ba0a0799ebe7b21fb9318939dfac500d2"),
    (64, 64, "d104c3839688714dc03d3d3bf08fec5884142a5637310ab3909c4eb6622545a6"),
    (64, 200, "c2495b798166b939d3c0a97a2e4b226beb5c051eaf5d7e42877548340b82239b"),
    (65, 0, "ebd84bceb8262de51405765765f6bc9d4dbe4cf6c6b940160b902b42c89bb118"),
    (65, 1, "ce5382776bebdc17621a19fe8317507cf43eee2c836d43c647730b57c696d6af"),
    (65, 55, "f4b2fe9fb93c539a9322c0f4634caa707d744282fd22271d896c2ea44e7c23d9"),
    (65, 56, "8d80f1bd4213bb2cd28a2582f82a389aa58134bca99d35e4d81c18a9a0a1b20a"),
    (65, 64, "35787345f59adc7c830869aa4052a113592cf8a15651644d42224e0eadf5c1b9"),
    (65, 200, "76201ad74bff86945b2767bb286e55969e4a168cfce86d20b35180a63d8d1fbe"),
    (66, 0, "e8c1383a2d4cf9f0dc814a4b199c140d88dd6f2e5168d044002fd46fdc55cc88"),
    (66, 1, "04a390fec001c6688b69c125ea8ccc8bbf714200aa5e250f2468ec1ba18425d1"),
    (66, 55, "77f76ec182c8f4781882f6db1dff8c7e4752897a2375fa5cf4cd20f9db885b7b"),
    (66, 56, "0d26de1e907761234eb51709801abdcf50daea529fa872b3ff367f71d02bca4b"),
    (66, 64, "be0dc30a142b9c693a4f7cd482a2a1c971d24f11a2eda710ec57e6c96f91824d"),
    (66, 200, "5390e283c7914a53b4a23c2d4824caa1cc416a2a1c752789d6fd6e4bf1967295"),
    (127, 0, "2d403d79bef95334d054c826aaf3d5c5a784309ce8385ce84ab26e623332703a"),
    (127, 1, "924f9351f9ab820d59447eb4743e6af1a30e0a9f685ecbaa2ae53eeeb1cedb85"),
    (127, 55, "00c67d20bfd7887d478c8dad36b861be72e5079e0adb22c635f49c94d21d6c2b"),
    (127, 56, "3e111b05b8121a9c2ff038bf465f87386b3016d0903d01596bc4a426259c12e8"),
    (127, 64, "5e4a25994315315caf18ababd1abb537ce6c0ff571596ff84d8cab70062c45ec"),
    (127, 200, "bd5ea39baee0116bc2f802bee612f4507a7ee3d326bf8ed8ad13b287e7c74168"),
    (128, 0, "c51d47077f472c1e9291529bb4dc63915de0e618d89d4e19c2b9e8289695d89b"),
    (128, 1, "0f2cebcb0d85777d6d1851d17351eb78b53617cdd2be61ccd3be2618fe85f9c7"),
    (128, 55, "f27bf51cf895a25f5d957c6bb35be9df7cb10401079fd6872590b9a941b1975a"),
    (128, 56, "0e4728534276d3c7d92b6b8f024dce37c2d319bb442eee973af63d28cf0e6db8"),
    (128, 64, "433e9ec54f2445f7101e58bf0ac5d7abd8a4d8c90304a8cad217b243585e2aaa"),
    (128, 200, "516dc8be1a834a5ba77c30d55cfd34efd9bdcbad69355e66c394d696facf6e8a"),
    (129, 0, "ecbeb1068f7d4f27cc5c74aa82eea06aa21d3e849872b2a8b7311a3b718b2404"),
    (129, 1, "6d5dc211d48e9757cfc86775caa7b81df703859c192efa9584497c4972a1e787"),
    (129, 55, "97990cecd3bd16f79e129aac402b6eb5889e15ba3ec3b0fa165b372377b2d417"),
    (129, 56, "bc699c411cc758578ba27910107818ce7832925a9f6f44c3598b94dc799c0c4a"),
    (129, 64, "a225d775c9edf3bce427873f98a2ef1188798fe3fe2719e7169a76c7315eed02"),
    (129, 200, "d3ac4455485ada476c89c0e3ce901a61f94f4aa1719249047af930d15852ffc2"),
    (200, 0, "48addbe8f9c13693269a6e065c63711560d2a975afa0053e157a863404e65597"),
    (200, 1, "e77b0633149636173d2b504a5be17d5fd9c8a65b36322cea3ecdcd741ae89087"),
    (200, 55, "72f72ef9018d5923c2fdb0600fe2b1166f57e40847eb3810a3619e744c3af224"),
    (200, 56, "d1ea21cbe8b4dc3e30fef65a8f69072d20c641a4fcad36f0457530a31f0c598e"),
    (200, 64, "65701e5bed4d5b1b171ff88fdd83c9277d41d916f4448fa38bc95071300eba46"),
    (200, 200, "8151bb15894af326052b819c886cb81b08e4b33cb4a4b90ed784624171f4d359"),
];

/// (password length, salt length, c, hex output)
pub const SELF_PBKDF2: &[(u64, u64, u64, &str)] = &[
    (0, 0, 1, "f7ce0b653d2d72a4108cf5abe912ffdd777616db"),
    (8, 4, 1, "7f896774d7f814a1ecd4beec6b4d96915f4d13646222c033e3425a72a6cee957"),
    (8, 4, 2, "3f524ae881da8b12189da749ba2ceb3cdaf7729d6757434123994cf8540ad71c1b"),
    (64, 16, 3, "205a8d9d48a024f022f53d1b8f959ebac0370690624de036c5f2e1cdfcd1710adab154434b44e0a9b2c906a4c5ea56f950a4efc8f948a0c32cc0d660742fc852"),
    (65, 100, 7, "0a0fa12dc662660a93896564d732ea4a072b0cf1a8210dd3fddf8112babf0d7e92dd8a209b1de167a1faeef2f795b5b784d6eb55dad2af4eba33228029bd2ce709"),
    (200, 0, 100, "94b580a2c92cfdf558908430c045b55643aa88761187dcf8adfda915d1d1c1f780148f31644bc87ba609b3f60a63b8a6f14889d5ac6fbfe441027e46b88e4642a5908b658ae0bed3f4719112b1daa4549375845e4947a34191731363868ab9c4b88234220f28e364da76b8c9b5d03029f9d1859505109005020efa4ec057fb291569"),
    (3, 64, 1, "8b"),
];

/// (password length, salt length, r, n, p, hex output)
pub const SELF_SCRYPT: &[(u64, u64, u64, u64, u64, &str)] = &[
    (0, 0, 1, 16, 1, "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906"),
    (8, 4, 8, 1024, 2, "b07ba7286bb144764687fcdff903bd2abdc0cd6a57a5eaaac16e7ffcb26235e6103b101fa73341970114d52a3bdaf821482b8cb0d487f558ca0d9e7c88170e8c"),
    (3, 70, 1, 2, 1, "c8fe2c74a7a6d6c050140c5b6bef09d22a2da6bb"),
    (65, 1, 3, 4, 5, "797fc0785b7bf2e8a38a5b5cdbcb556909d5344567998603813fe5319be3eadfe8f2fc25a29d91d6fa01119c7c8ae563e70cc67b5d8fc18e69e6bfabb46332ab626691b0d2657010bd244efd5c9b38b143cc5d4ec2acc9886a956e7901ab3c7c2e626845"),
    (10, 10, 2, 2048, 1, "ccd04f0390ba5083059fe370fde136dc49175402c5a5fe12746ba3fa49e33bdf8d"),
    (1, 1, 7, 8, 3, "55a791dc3fda31f0"),
];

/// (hex key, hex block, hex ECB ciphertext)
pub const SELF_AES: &[(&str, &str, &str)] = &[
    ("00000000000000000000000000000000", "00000000000000000000000000000000", "66e94bd4ef8a2c3b884cfa59ca342b2e"),
    ("000000000000000000000000000000000000000000000000", "00000000000000000000000000000000", "aae06992acbf52a3e8f4a96ec9300bd7"),
    ("0000000000000000000000000000000000000000000000000000000000000000", "00000000000000000000000000000000", "dc95c078a2408989ad48a21492842087"),
    ("2f5052c9fd15b19a18c584d013635681", "76a8277347f52530e1cf979175a17898", "91d7f83f519abc524193a405bca5dc48"),
    ("94091dd64a21ffe94214bc6d17deeb43873a5cf2f0a71b4b", "486bacc5c2d8a71a73d51bf8e522deaa", "8b502cceaeb54b648580d865caab8efa"),
    ("88dbf612972c594a2c2f6dde493ef1c4cd27adba8c36e6ebd00b89ff143aba61", "3c5661974942379614b943d0593e4a5e", "0700d355b008d8ad571c6aee76dba9b7"),
    ("1d92ad4b6987fa0347cc5d2fb6cf9e47", "2f5da6e9921baa794759ee9f4b362555", "1994d3f65221945d8248656e7b0aa0fc"),
    ("fb848c99b9a43ec7866a23ea000c1939a168f5ff17314a0b", "e1b0acf86b9621b8c13ca17bb2f2a23d", "d558b69edecede3b6e1c2a7761b77dc2"),
    ("5a3df89da7bf23d71ec63f111d9171c3f05047380a17812f20248e63cfded4fb", "92ee93de02ea87db530298f4d66c6398", "31c82f282ecb32316ff612b8dc323d1a"),
    ("c3c81c2b9a9ae9e358d68fc47dbc8596", "cb440fe2f7ec20d54f4726630cebadb8", "a25c326e72ea3b4fd65ea67a7516a4f8"),
    ("4ae43fd8358484a65b03cff3b3f0ebe5478dea48398d2462", "087f4c7109d76636536c712c51212520", "467099f27cdb1c56b158abdb929ef385"),
    ("13876d0627a48f198e5d5eeba044eaaece7545a112d872ef1fc7af768e4da77f", "8101d16893f3425fbb4ff727e5502764", "e9a65a289c02fd11f922efc509ee971f"),
    ("58e08f69ba8386e2db875b1a2d92734a", "8651b2bcef1776e9ebffd170feb14300", "a99fcc238d157ba00a2bc9d03c00037c"),
    ("6774e97b32d47e4e848019c7333d0aecfb1eb46f335917f3", "76bdb563530c997e6fdf55cc894b3c8d", "dbfd721c10f517a6ed6ba175f84c424d"),
    ("3a8cfe81d50302b031cde30603c4bbfbe2af5a32fffb80a034f4a9da9d315153", "1cc8ff5e6aa02f9fae19675155bbd054", "6f8e42724c21e3548044956d6ba49338"),
    ("5bd4ca497530b4b3490e350f3590bba9", "40d674998c07527b12a31e2963b0603a", "b1ce18016f78320d1931f4d512a2cf75"),
    ("8d68c655677c5c72d8118949e899757191592f3252412e16", "3b7e9da2df5de9523282424656a51ce3", "3ea5d34b5afbd5a6dc280f662810cca4"),
    ("6c47c1de66e7e5ebd7b1fe0746ea1a360bcf043929829fb18cbd7a07c25d7639", "17bb42fe2af6771b4815132dad5d9b4b", "0e707306e67643bf5946d5cb743e2240"),
    ("362eb7f8954e74e3a7b823b3735979bd", "fce6d0a75bf5a500c97c3ae089306ebd", "305d8cbcf167a7068fd7c7e6f7b1eb9f"),
    ("1ff17650532c3034ff639402627cde9429618c1adc337a67", "9bfea10e1d03fc0af5aa162bdf0edb99", "a9d6c01802629c57ca89e2d502b60108"),
    ("cb67903a62d3d4d64e5c0a3b477e52238051cf9d3372ad027dceb13543ff1573", "dc60c4ca476066179e139318a894ccaa", "0128235b3facbfcd89a2c2c09a6c2ba9"),
    ("d71f238a6b74e3b17302f571e828557a", "056df3f4fa8f8aaf96fa6c3862e0af2f", "78aff66b7a99627382ed449f05248d4a"),
    ("432b2e7bf4583e776c3af83e1952aba7ef3d3e69560a5b50", "c4ffa7146bc75b1b1b3352d536340198", "dfe5a6692331179de8a5798965fc5230"),
    ("f68f3189e7394d8b39d1b8bdb035229caac67ec3e1d71fbe4c4ca9a0b2dff2fb", "a212f07276961212b0ecf8c407bff6ea", "4456c16268497bc5db23d8864cec0281"),
    ("520b32abc72df9fb1de4f7b688f678c2", "61bc0c8f43a828a9a063324941a35a04", "6439e455f8fb87091a248098f77daa4a"),
    ("640da309a8363a02e5db1fbd3a6067f031c3e25a365f62fc", "fd2d4cab3d29a091ff558cfa94f1fa69", "ee41eabe7b704620757321a326adac2d"),
    ("acf6bb284c6a9b3d06406f998c53dd0805822857c26d447a845d8ee4ad071ead", "9f1e0272a9e69c5abdc408f803917f27", "44b589263d42235540e011692d037849"),
    ("c30630c8f93e7a5765f8412b2838f0cb", "8e77e64d74e8601f7e95f8a4f28913f2", "008e0591b9f698299c8d2408661c601a"),
    ("9c1a11efe10480a20f061a3e4139f04af127123aa962472e", "fb272f126e8dfb89e4005c4999dac311", "8653f2fe0b923473780b1323e1a2a0bb"),
    ("970222466d7ec386fe8fcf808c6e2c584703e9b1dddfdf970c8b3c4079d488da", "2b04fa6f77e5b1b2b57e077764574c83", "b8dd2ef2a4bca7653e8a62f6c180e84c"),
    ("04d4f434855c0fa0b549d59242d03c95", "08e526346896c3129f4603591e67b53d", "04de076d2e3c938873cdabca4ac5aaff"),
    ("2bdaa8a1972c0c431d0dc687adf16624611acc3425b9b7ec", "6ed23e1b9a8128024e723b74e094d77d", "7f6cf5ea37615afa3bd42d75870ec802"),
    ("4d4de0a5c72713ef5fa0a488ce3d3f497e8813e611dc2b653edafbd51dd00134", "405ea565bcf4773f753be1e051f021e4", "028713716d6699d3ca7164e570476954"),
    ("fca838cfe1738e488ca6325782644e4f", "0d40d51d9f929814454c2f7c0c0789b6", "47b36efb86020cb26febd89ed48cee05"),
    ("207db44581a75dd679e1b01d76373812ac2063267a2650ae", "12ca2c442b28cfd03f6039b637cc5c61", "b0eb066eea9cab72d627d70ac5d255fb"),
    ("dd5009cd2e717900c074309cd560d709df8fc82b1665cde160d3023f2759e352", "03205445d4a8b32d382a8d78071d7bdf", "6b407bf8b53f88b182209e1fa00001a4"),
    ("b8a17c4969139e9713ab96f34b975d1b", "eddaaf3d1786054efb510c386644a8eb", "68200ff6bec0728df0d6bd15ea4e3e64"),
    ("ed1ed32b72367d6bd99e99e78701e06c2c15017222d6dab9", "4473f236d91bf1ac20a6823ac6082fc1", "fd419c982630951999cd85bb805e59ac"),
    ("bcec9f3b2dbbd5e61d9607593a990c886390081507f64da61657588b16f21cc7", "20f16b6776bb62a86554513284333987", "7ef2513fd5378768f6e363dbf0f6f0ed"),
    ("f19e22549b82a597fc01ee419c8a6b2c", "63aa588eac13fbad04ddfd98e62b69e6", "4c555897486a75d861aa39d2fac4a890"),
    ("f78759e918ed00c0ceb21653a5790664e6a58ca648e52f62", "7fe31ac7dd514a97833924cf013f2391", "672417de8642e017c17e1f11eef1f849"),
    ("ea3ee8941e71e34ef51498e855fd1b827974373d8ff26fd302fad134e55d38da", "46fe13c69e51f111c291311fc67e4e80", "b73d0131bef6e8ed174c3abb10163072"),
    ("eee87b5936aea14a089e4db87e29c34f", "9fa6eb003f14425eb9c8e6baacfbcaab", "b8c2ef156761f61aed42d261d6ca8217"),
    ("57a7224e7a3cd6031b826a32e6b43e65c4fe4d444a82268d", "9363eaa993870cd359391f65a251e449", "d8e028a72baaa375b3a6953307141a21"),
    ("8c9566c4c2ea7c4b2bef229acd0411c3d0a81825544d77149af980918e988ba2", "fd54e31b382f79f9f69ae114cd0e1772", "b3e9791abb5c7838c87492f441f4f297"),
    ("ceaa3a780da265c9ee95fc9d532f92ad", "ee6bb87b200acb28272c54403018c437", "66208d6e50dd0419a1c16ee0f5a55b99"),
    ("db0662bc80b5355d973cf508147deb165b044eea5d049b2a", "e2d789ae124dd1fdf8cd8a33247592b8", "dc04fd1c7e0bd748a35e9fc7431e8c47"),
    ("b2ca79faf9e112ecc5e9edcb7c91f191fd4e6f1de47f76ab353d9d4e7aa26e08", "93de47ddfbde388567e8e8935436f8df", "394477f2f517394b6d70dca393cae3ef"),
    ("6121ea28367c40139ce77719c27c36ba", "f741acadc384f8bc5908cca58f520fa8", "d687a0ade2c0cac4f5b75944d6c0b0b5"),
    ("16958d474f16546d9e5ee9c022c380129fed6db9c23f6c12", "d43a91ec903b7ecc2201d679b7935172", "5d332a2b7d4b10395f0994756507c7ed"),
    ("b178d7e900ca3c6e8cac2e4c5a8d768e7296d86cde02c09a112212109212c97a", "2e71443d3f88223f548c3bdfa78683b2", "f8925828c5fafe02afe4fd3b98d1238b"),
    ("624a9308c7ba00bc751a4b844422a088", "30ebb311f9164c879550bd8c8b5754bb", "e074a28f6a4371ea3c285619afa56ed2"),
    ("a143beed5371b3d060501fe0a58d555d947290c42575e8a2", "6457133d7bf315a26495a72102797a0c", "e5583bf812e6c67e8be844c756a757ed"),
    ("029c0772bac3d6d021f5a73b31be52de14c24bf06f103a1b596bb3d08b2b293c", "57fabcc263068c1dbf1eb375e9832c96", "8edc7ac281849c31a89bce2bb3cd6cb7"),
    ("8b6fbf9442f6695af3115ddc33e56fd7", "edb1b0ff0da20a9050c941ec293408d6", "36f0b1448ffed045313c40260b02084a"),
    ("123d11cf86b5ee44c916c576f39f310abc9d7967486bd3f0", "80a8581fe03480949e96c17a683fd6cd", "13f7082bc1495c3939e01081e0936148"),
    ("4eecb0a05ea4f8711638e7ca15c99fa329baa1d65c075fce6deb23a0bca14e31", "4975d480f674287ea95dbf6cc6502869", "5c77bd094d9fbc3ac8aa7fc5a23577c8"),
    ("8b1d04dd138905344fead427a09e2565", "ef98dc32e01d9d9b6cebccefb45f6b5c", "e735ebfcb64606cc57dedb7900eb7397"),
    ("cb779a0ac1d43ac0e2aec946dc80ca596d1d4bd7326a8c08", "717aa046d6dabf799a4202660375eff5", "121530e9896203ef24d43aa45020c206"),
    ("190e05234f23b28d6aed3f66043a427cfbcb16b5843386f2f3afd8d584cca0f3", "b60123eb42606d7d27a0a77cd6a5344d", "1b2cf98d334d8a94cf93a07e07e6ee89"),
];

/// (hex key, hex iv, message length, hex CBC ciphertext); message = generate(4, 9, length)
pub const SELF_CBC: &[(&str, &str, u64, &str)] = &[
    ("8704a01a73fa56816fb473d937190aa7", "a4e167a76a05add8a8654c169b07b044", 0, "5faf8127abfc1c9ae746052312ca7e30"),
    ("badb7283766a112aebdb2936077a25f5db85ea465cdbac33", "4cd9b7672d7fbee8fb51fb1e049f6903", 1, "eb61a54242981598363b9fc1e1e50412"),
    ("6897ab3e7bed435cf094a10477f16bf68af03a04d99b2833d43902ce2b40f0a9", "420fce314175df402adbeae3cfbbb856", 2, "5f697cf7b41ea0d80337bc6af3143143"),
    ("54c41e0402abdddf802c5423f301d6e4", "9a83c6cb1126d93de4a30715b28f1f4b", 3, "3bb745947757f566e00fc43dce6fe654"),
    ("4ab811cbefec4e9599ff3e9ccf5030371ba1325cee1ab43f", "6ed5045938d710d075142228a0a53aed", 4, "73fbe5004f3f53a928672b1be331abdd"),
    ("e75d1509b86b903f14316bbc8b9ba4ccb96f18b8543a423f24e5e869aac65097", "0016cf5ed68e5a5349722594ae8f5926", 5, "3ec5b5996eb2fe3b27abd31725815631"),
    ("c7fd51757fca49764c881a1196c3671e", "396ee89382efc154e95d7875976cce37", 6, "3e94a520193cf36de7f10bb465c207d1"),
    ("da07580314824bbe11e1bf1f657970f60dd0a0495976fa1b", "5a39f9a9c7598d32872c704ba30a672f", 7, "76dc79ce17b40ffa3cc6d032eda9dc81"),
    ("42a0437ecb82021fd972fcd025d309d79138ee01cdf71ea0de01f9a1711dc2dd", "4c1dc1f491eb4e4e3e5e34a36df4fd84", 8, "0ef0d1cab42f26a98d5fcec8f00cca7c"),
    ("f740a3699d080a5a3cdbb8e4f17274c5", "b8fa730e0f65ce7934c7424579ca827f", 9, "1bdca29e96141693381f38f812b39c1b"),
    ("d35bf04fff57f1fcff97760c220f8667f6756ed58ed7a469", "73f6128db300f3751f2e509545be996d", 10, "3be580ed68db94a993472c270d099ffd"),
    ("34aa549f000cc80441b95ae2cbda4e8a819288a0de3b0ee6890518c677540869", "59db9aafb533427b96d89789885dea4b", 11, "6fc92e16281d4bf8d3c3b0ecc93b917e"),
    ("f4b6aa79b2f4df0b44d3ab9060a0d0b5", "6b61d14d319dc99b14d637f659dd15f4", 12, "e00257d77d500836716dab70382b77f9"),
    ("8d970ac87b79b635406597c6fa4f4f10ad768b86dad923b2", "deecac0ba6fed8f8f873548fd32533b3", 13, "6f77c7d3708206d122a8133a88d6d3af"),
    ("a49bcb68f0d234223042fc77cc60086392695f973867e0c1af8890ac348d872d", "dea15cd27308f2b675436b404b243f44", 14, "705aea911c8d579d5abc47364e8fac86"),
    ("12f5a13c946c4575969f40c061a37781", "bb5853ce561874ca6065792937eeb75a", 15, "cb2d1145b8e6866cc33943c06f4d6c02"),
    ("7353fa3d7ea1183c76566b8633d4e6ec68fa748ce68be49d", "7daa2b32ed44f20a09e879c26e1e4985", 16, "eb6636f49781ba16fd0a092f9433ba5301030724463116e9fcf2515016aa367a"),
    ("7d68ed898ef9d7b24c3e855c50ba5f098e4da989699a3f6659bbd036b1f1e441", "76cc8d5592a3146e196656440de9b5ad", 17, "198251523f64d3f7c77aca4b4e8e38693b5b81f8e3d1e423390c15596f46265f"),
    ("905ba2dfc9dd097afdeac2de7027c616", "e4737972dfe5dd09cdbaeb9f26705a26", 18, "6efe340e258d7a1dba037c70a1e7f9d6f8ecaed2b99e04444cecfa307dfb8d12"),
    ("5f4b06e31b851c30aee7fcf1120ac06dd3ebd1e1c26408e3", "fa5128f99a20e220451b1733612fe886", 19, "1b470863f97bbb2f4548d4e24d809a9aca8fc3799da091ad322eea8c8453055d"),
    ("89149993d9b1a46d18946f40bc712e9b088bb33b540322dc55f8950008a08674", "bd53318aa9171e466caa9f6df1f33d97", 20, "0882ef53c939b5649c4a8826b067d5afdb0a94a916e8ecf4e85e5a6a6b593b1a"),
    ("9cb5ceae5bd8de0f3d0332c1d98537e4", "3d3d6dea887cefc1e7a2ca3e91f4e9c8", 21, "7d5924446c6999299b9601a18aa15c8cca204bc7531b485598e47f34097dd49d"),
    ("b62ec303cfa2c4aeb566419f069f7acb360fbb757afe9e37", "a7919bcf8cf010310d8db3715e822f38", 22, "e8988e7a74c2c21764647210666d6fc7eaa1754abd93029b80662d8a2638024c"),
    ("78587d3c7c157f0813254441eeba0f376ae355638b0037bd0961568142807d02", "403219726e2d258e28b3efd310b19613", 23, "d2e85c6efd832470dc72864392ccc7881ec88c84b32be5001f6fc7af2c649a0a"),
    ("9674c47cd67b1f68361c6e3e75d17dc8", "64b0cf833d08d23b08185c18bb7a0ef2", 24, "b6cb16ca73ee5b4f3768bf2804abae9e03a312ef0dfc71a866f9100dda4ecdd9"),
    ("ca9792d49c4e54b7037eb0bb2dc24765e9b8b31e94f5ed05", "12515b3f6b5257f248295339da43c53a", 25, "1bc5069668c8c7b8a9eb00e0c09cdc82903cb4c74a6707f379ca55ccd233b346"),
    ("67e5ff27451db1b64670f7aeecb147c51df3ae7479b67344044caae078ad9a38", "c640ffaf23b6ed414321946cdc7e342a", 26, "98335bc7c9c67d26e4f205bc0582a753c2d45e2314f4468688e560b2cb70d989"),
    ("e01a2f64f30bc38400bfeb76287a5c12", "ce4aee1536e25ca13b34a2b730be0b8e", 27, "d546dc9ccbdb7c28d7b4e7717bb5c2f7efe6d7048987a9dcd783c55997ab63c6"),
    ("4fb6f9f73e42dde16a764e26aab8782bcf3f7b9b39b35a6a", "001e832ee50bb5bd3dab482eb130abf1", 28, "cb5394489345727c77519d02ae77fd1c463ab369c1c81856438733822cd0fd45"),
    ("3355560fac7953f697a5bb76232fd4dfb81069a36ea06342ec3a1c136a618c00", "b189386f76e9ca2de95a8cfb6e964c69", 29, "df82d669f7aff15ae2b6e17f441dee009b82d3051937a1f3941ebf3a408702d8"),
    ("440c7bdbd2f969899b1f6f4222548a02", "013e780f1691e21ab35ada14901804e8", 30, "ce0a0c4dfaf9e6f1661f4adb62062ef6c7f41c59b8d1014bac038d1f2d612081"),
    ("49e226480d5c4de6ad722704906ee55f8d63be3f35d4949d", "2dca677a31b76bdf622f2ce61e99f2cd", 31, "7008398f3b3231fc9d2840d00d77c7b5b0d653ab049de4a12058adbf2c65b274"),
    ("13cf1b541aa161754cb1aca764fcc4a50a3fae7a5b34cc38153adfcd48401e8e", "579a6e6b342a11b9c01fffd40edb24ad", 32, "039d9e254a43d9a6f0709b6bd5ffdb125f6814c8d45fedf77cf4b521ea42472a5314ac2934517927842e34b4ebe57726"),
    ("0059c2bec7f3f49529fd8c56ff426f2c", "e43bceaba7c58321578be22540fdcb2c", 33, "96c036a3e8f3b90780c1255619ed0f7cbecc628baf272c581f78edc38fdacd75948b5171b6a457e98bc23257bf571ee9"),
    ("83b9940b5681bdae0bd9cc54e39c4a4c9f44978b00731173", "936475308fb0784a6a8f8aec1b819ef5", 34, "8d6996a2cb72a52238ee941e18b85469d9a902961ba8c1268d04a3cbc0925d9d590e4f48e9d6ed97808bdf48e53d0697"),
    ("61e29717408636c2f4e0fccf895382bf5fd228158cc09bfad66df3121f82a714", "d62f6a60f0023075899057b2269dee60", 35, "d7b34db2716d113255421d2137d58afa3fbc48a696b5a17e0d433127959c5958f3ead7fcfc82a38ec67657ecf17a2ebb"),
    ("8e665c6e6f23c2c3c0dc064dc43a2296", "9eb020a42fdb35a1ad33cdd263ebe72e", 36, "781585c386bb9dedcb927b294cb083b70da5291b426bf5194b8d426ae82c296de4dde7e40cc9719d248117aa4f950135"),
    ("c908d1abef0ebbee8be126a2e6650edf4d7e0c2aef2a8f94", "6bca30b2206d363296b9d8640e8183ea", 37, "2aa9b94c6c4519958f58034c18df6818a47b6e24224e1f32f8fd006231ca5b7e04134cb5f01e175ca17e0aa613dfbc04"),
    ("a186f557a0be9bd4cf70ab308af2f206d9aa8285e83730b9f7194dcbcf9cd4e5", "7bda31aaf7d09a81ae2c7548e2ab415b", 38, "2b5e0487ce7248a0dcc7e0123dfe0846ff3cdaf48c67641bc9c6cf5c4f53d8ada0b2213db87c894e809d9f83494e3019"),
    ("8b1e9224904cc7f1090448ae8a219d35", "3bb36f9329c2d524ea6ef142ea9a939f", 39, "e48f292b4fde484d64d7b7e8943933ed3ba01e956442e9c89d120d359182514a31d8717aa61cec50998f17d74e850b15"),
    ("52727dfdda160ba42648e310dbff1fa4ae368fc5fd1ec610", "42695feb6140635f5462836bd2c8f17f", 40, "2c38e73a135960297dabb2dc6318338f2487c435351934d672359b300e9dc1ca375adfc04a8a735086c7719c31cda243"),
    ("32cda8c950a5564c18a5258da92192e58296adf0c169ebc9e939ad8954b2c911", "86892071bcc8b4406f09ae8947c74a56", 41, "a6437d5917d4a1f01cb07be4bb0aafbd64b96c84f2eb86d0a0bf635067ba7851af5dba6af2f3e0c0e833114160043880"),
    ("7df607571a5135eac694434a67c8e3bd", "ebc35dc1b8e2602b72beb8d8e5bcdb2b", 42, "ac5cd69779f8de140ada1be253fea0cfa51435cd62534ffb902b167021c97f536d643f36a667551040e978b52ec8c338"),
    ("3f590234320b08bc52eebac77e6c835d3b28d435384ee962", "80ab568943b1ebb988b70a6096cf261a", 43, "5560d7427fb13af82e459a67e9fce8a8fdb12dca2f4df1ed5c6d63b975a858538d503f2a84f0309ad582b5c6d6fc5588"),
    ("5b06f5b64034b5731e4029a1788a82cc040c0df4ca0de2cad3e7c4e384f99304", "686f14ba273969e58b4852ce75c6a473", 44, "e3b335391b4c06800897c3d2c3e62e27239e27fb4cb5f2f7d1c6bf30b7b8e685626b41f894314fa312a3247050e58ebf"),
    ("3647ff26b430d4e06232931fbec37b8c", "a9af7ab51deeff728949714184eca5a0", 45, "4f1161774d8c4a1a544ddaa59e682fcadb4d52f351a2e317296db59b76dde0783a2329eaa843d3e5907e94314f4f9210"),
    ("4d6051a3b8edc7aceb47f5c49a6c3d8d8aef787f7cfa3a66", "becd6a989137bb79bb006bad23d15a11", 46, "d1abfae92f6ec9ad2d00634cd7bbc40163a960c164326e0025d8393af8170f5c2955f8c4beda72c69dd420d90e33e9d4"),
    ("25fdadfc7a4e391738eec3fcf28a02fd07e94517c03af43f9ef4fa1b008a1114", "0497abf957f6100ef2c9a66da82e13c2", 47, "beb3c04b4faf000fbfb513827402ed1a17878e2a12abd32b098ab4792df3dd4d68e92e17d7580d9cd513ba61abe1766f"),
    ("b587488bcb837125bf1e8dc7bba093e4", "d0f3b88e076ef7282e86aa8bacc4a34a", 48, "c42b513cecd7d52fff29776b85fa8e2abd49c3f37ad4ee1dad0e57029bd9ab4d0907104d8e6e64422bc595422a23c85705df57930a51886cc4a0b06ba552460c"),
    ("1de4f3f36b073146ec8e4b3cb6e0efdcca1cdce2f361ebbd", "30386ebe265797353770689774b25634", 49, "9fc57207d6ab0c33722ddbcdae774005a7e7b8d046ce4145fdb90b5aa8a0bcc48500bd04ea5c8f65bab4b351f7e19f4d91b555e9953ee178921f96a00c41f069"),
    ("9c5a13a16bb37524c2bae5f6743fa35b45166dc69f521feb56adde9bdb6967b1", "fe308246ceb760a0442106fc0b7c65bb", 50, "1a7e323ab5090624e2b783e1a99062f198ed7ad213d14f8bd8696e0d22284ab1413a0fde78475eccf3de01a8a9d9439af2fb1f48256bb5d953c79f1a2c687665"),
];
