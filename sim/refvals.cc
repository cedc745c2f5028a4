// Reference vectors as published with t1ha 2.1.1 (pinned copy; not read from the tree under test).
#include "model.h"
const u64 g_ref[10][81] = {
{ // t1ha_refval_32le
  0x0ull, 0xc92229c10faea50eull, 0x3df1354b0dfdc443ull, 0x968f016d60417bb3ull,
  0x85aafb50c6da770full, 0x66cce3bb6842c7d6ull, 0xddaa39c11537c226ull, 0x35958d281f0c9c8cull,
  0x8c5d64b091de608eull, 0x4094df680d39786bull, 0x1014f4aa2a2edf4dull, 0x39d21891615aa310ull,
  0x7ef51f67c398c7c4ull, 0x6163990ddbf319dull, 0xe229caa00c8d6f3full, 0xd2240b4b0d54e0f5ull,
  0xea2e7e905ddeaf94ull, 0x8d4f8a887183a5ceull, 0x44337f9a63c5820cull, 0x94938d1e86a9b797ull,
  0x96e9caba5ca210ccull, 0x6efbb9cc9e8f7708ull, 0x3d12ea0282fb8bbcull, 0x5da781ee205a2c48ull,
  0xfa4a51a12677fe12ull, 0x81d5f04e20660b28ull, 0x57258d043bcd3841ull, 0x5c9beb62059c1ed2ull,
  0x57a02162f9034b33ull, 0xba2a13e457ce19b8ull, 0xe593263bf9451f3aull, 0xbc1175539606bc5ull,
  0xa3e2929e9c5f289full, 0x86bdbd06835e35f7ull, 0xa180950ab48baadcull, 0x7812c994d9924028ull,
  0x308366011415f46bull, 0x77fe9a9991c5f959ull, 0x925c340b70b0b1e3ull, 0xcd9c5ba4c41e2e10ull,
  0x7cc4e7758b94cd93ull, 0x898b235962ea4625ull, 0xd7e3e5bf22893286ull, 0x396f4cdd33056c64ull,
  0x740ab2e32f17cd9full, 0x60d12ff9cd15b321ull, 0xbee3a6c9903a81d8ull, 0xb47040913b33c35eull,
  0x19ee8c2acc013cffull, 0x5dec94c5783b55c4ull, 0x78dc122d562c5f1dull, 0x6520f008da1c181eull,
  0x77caf155a36ebf7cull, 0xa09e02bdb883ca6ull, 0xfd5d9ada7e3fb895ull, 0xc6f5fdd9eeab83b5ull,
  0x84589bb29f52a92aull, 0x9b2517f13f8e9814ull, 0x6f752af6a52e31ecull, 0x8e717799e324ce8aull,
  0x84d90aef39262d58ull, 0x79c27b13fc28944dull, 0xe6d6df6438e0044aull, 0x51b603e400d79ca4ull,
  0x6a902b28c588b390ull, 0x8d7f8de9e6cb1d83ull, 0xcf1a4dc11ca7f044ull, 0xef02e43c366786f1ull,
  0x89915bcdbcfbe30full, 0x5928b306f1a9cc7full, 0xa8b59092996851c5ull, 0x22050a20427e8b25ull,
  0x6e6d64018941e7eeull, 0x9798c898b81ae846ull, 0x80ef218cdc30124aull, 0xfce45e60d55b0284ull,
  0x4010e735d3147c35ull, 0xeb647d999fd8dc7eull, 0xd3544dcab14fe907ull, 0xb588b27d8438700cull,
  0xa49ebfc43e057a4cull,
},
{ // t1ha_refval_32be
  0x0ull, 0xc92229c10faea50eull, 0xfe212630dd87e0full, 0x968f016d60417bb3ull,
  0xe6b12b2c889913abull, 0xaa3787887a9da368ull, 0x6ee7202d53cef39ull, 0x6149afb2c296664bull,
  0x86c893210f9a5805ull, 0x8379e5da988aa04cull, 0x24763aa7ce411a60ull, 0x9cf9c64b395a4cf8ull,
  0xffc192c338dde904ull, 0x94575bab319e5f5ull, 0xbbbacfe7728c6511ull, 0x36b8c3cebe4ef409ull,
  0xaa0ba8a3397ba4d0ull, 0xf9f85cf7124ee653ull, 0x3adf4f7df2a887aeull, 0xaa2a0f5964aa9a7aull,
  0xf18b563f42d36eb8ull, 0x34366cef8334f5cull, 0xae2e85180e330e5full, 0xa5ce9fbfdf5c65b8ull,
  0x5e509f25a9ca9b0bull, 0xe30d1358c2013bd2ull, 0xbb3a04d5eb8111feull, 0xb04234e82a15a28dull,
  0x87426a56d0ea0e2full, 0x95086668e07f9f8ull, 0xf4cd3a43b6a6aea5ull, 0x73f9b9b674d472a6ull,
  0x558344229a1e4dcfull, 0xad4c95b2279181aull, 0x5e3d19d80821ca6bull, 0x652492d25beba258ull,
  0xefa84b02eab849b1ull, 0x81ad2d253059ac2cull, 0x1400ccb0dfb2f457ull, 0x5688dc72a839860eull,
  0x67cc130e0fd1b0a7ull, 0xa851e3a94e21e69ull, 0x2ea0000b6a073907ull, 0xae9776ff9bf1d02eull,
  0xc0a96b66b160631cull, 0xa93341de4ed7c8f0ull, 0x6fbadd8f5b85e141ull, 0xb7d295f1c21e0cbaull,
  0x6d6114591b8e434full, 0xf5b6939b63d97be7ull, 0x3c80d5053f0e5db4ull, 0xac520acc6b73f62dull,
  0xd1051f5841cf3966ull, 0x62245aea644ae760ull, 0xcd56be15497c62dull, 0x5bb93435c4988fb6ull,
  0x5fadb88eb18db512ull, 0xc897cae2242475ccull, 0xf1a094ef846dc9bbull, 0x2b1d8b24924f79b6ull,
  0xc6df0c0e8456eb53ull, 0xe6a40128303a9b9cull, 0x64d37af5effa7bd9ull, 0x90feb70a5ae2a598ull,
  0xec3ba5f126d9ff4bull, 0x3121c8ec3ac51b29ull, 0x3b41c4d422166ec1ull, 0xb4878ddcbf48ed76ull,
  0x5cb850d77cb762e4ull, 0x9a27a43cc1dd171full, 0x2fdffc6f99cb424aull, 0xf54a57e09fdea7bbull,
  0x5f78e5ee2cab7039ull, 0xb8ba95883db31cbaull, 0x131c61eb84af86c3ull, 0x84b1f64e9c613da7ull,
  0xe94c1888c0c37c02ull, 0xea08f8bfb2039cdeull, 0xccc6d04d243ec753ull, 0x8977d105298b0629ull,
  0x7aaa976494a5905eull,
},
{ // t1ha_refval_ia32aes_a
  0x0ull, 0x772c7311be32ff42ull, 0xb231ac660e5b23b5ull, 0x71f6df5da3b4f532ull,
  0x555859635365f660ull, 0xe98808f1cd39c626ull, 0x2eb18faf2163bb09ull, 0x7b9dd892c8019c87ull,
  0xe2b1431c4da4d15aull, 0x1984e718a5477f70ull, 0x8dd17b266484f79ull, 0x4c83a05d766ad550ull,
  0x92dcebb131d1907dull, 0xd67bc6fc881b8549ull, 0xf6a9886555fbf66bull, 0x6e31616d7f33e25eull,
  0x36e31b7426e3049dull, 0x4f8e4faf46a13f5full, 0x3eb0cb3253f819full, 0x636a7769905770d2ull,
  0x3adf3781d16d1148ull, 0x92d19cb1818bc9c2ull, 0x283e68f4d459c533ull, 0xfa83a8a88decaa04ull,
  0x8c6f00368eac538cull, 0x7b66b0cf3797b322ull, 0x5131e122fdaba3ffull, 0x6e59ff515c08c7a9ull,
  0xba2c5269b2c377b0ull, 0xa9d24fd368fe8a2bull, 0x22db13d32e33e891ull, 0x7b97dfc804b876e5ull,
  0xc598bdfcd0e834f9ull, 0xb256163d3687f5a7ull, 0x66d7a73c6aef50b3ull, 0xbb34c6a4396695d2ull,
  0x7f46e1981c3256adull, 0x4b25a9b217a6c5b4ull, 0x7a0a6bcdd2321da9ull, 0xa1f55e690a7b44eull,
  0x8f451a91d7f05244ull, 0x624d5d3c9b9800a7ull, 0x9ddc2b6409ddc25ull, 0x3e155765865622b6ull,
  0x96519fac9511b381ull, 0x512e58482fe4fbf0ull, 0x1ab260ea7d54ae1cull, 0x67976f12cc28bbbdull,
  0x607b5b2e6250156ull, 0x7e700bea717ad36eull, 0x6a058d9d61cabb3ull, 0x57da5324a824972full,
  0x1193ba74dbebf7e7ull, 0xc18dc3140e7002d4ull, 0x9f7ccc11dfa0ef17ull, 0xc487d6c20666a13aull,
  0xb67190e4b50ef0c8ull, 0xa53daa608df0b9a5ull, 0x7e13101de87f9ed3ull, 0x7f8955ae2f05088bull,
  0x2df7e5a097ad383full, 0xf027683a21ea14b5ull, 0x9bb8aec3e3360942ull, 0x92be39b54967e7feull,
  0x978c6d332e7afd27ull, 0xed512fe96a4fae81ull, 0x9e1099b8140d7ba3ull, 0xdfd5a5be1e6fe9a6ull,
  0x1d82600e23b66dd4ull, 0x3fa3c3b7ee7b52ceull, 0xee84f7d2a655ef4cull, 0x2a4361ec769e3bebull,
  0x22e4b38916636702ull, 0x63096f5d39a115ull, 0x6c51b24daafa5434ull, 0xbafb1db1b411e344ull,
  0xff529f161ae0c4b0ull, 0x1290eae3ac0a686full, 0xa7b0d4585447d1beull, 0xaed3d18cb6ccad53ull,
  0xfc73d46f8b41bec6ull,
},
{ // t1ha_refval_ia32aes_b
  0x0ull, 0x772c7311be32ff42ull, 0x4398f62a8cb6f72aull, 0x71f6df5da3b4f532ull,
  0x555859635365f660ull, 0xe98808f1cd39c626ull, 0x2eb18faf2163bb09ull, 0x7b9dd892c8019c87ull,
  0xe2b1431c4da4d15aull, 0x1984e718a5477f70ull, 0x8dd17b266484f79ull, 0x4c83a05d766ad550ull,
  0x92dcebb131d1907dull, 0xd67bc6fc881b8549ull, 0xf6a9886555fbf66bull, 0x6e31616d7f33e25eull,
  0x36e31b7426e3049dull, 0x4f8e4faf46a13f5full, 0x3eb0cb3253f819full, 0x636a7769905770d2ull,
  0x3adf3781d16d1148ull, 0x92d19cb1818bc9c2ull, 0x283e68f4d459c533ull, 0xfa83a8a88decaa04ull,
  0x8c6f00368eac538cull, 0x7b66b0cf3797b322ull, 0x5131e122fdaba3ffull, 0x6e59ff515c08c7a9ull,
  0xba2c5269b2c377b0ull, 0xa9d24fd368fe8a2bull, 0x22db13d32e33e891ull, 0x7b97dfc804b876e5ull,
  0xc598bdfcd0e834f9ull, 0xb256163d3687f5a7ull, 0x66d7a73c6aef50b3ull, 0xe810f88e85cea11aull,
  0x4814f8f3b83e4394ull, 0x9caba22d10a2f690ull, 0xd10032511f58111ull, 0xe9a36ef5eea3cd58ull,
  0xc79242de194d9d7cull, 0xc3871aa0435ee5c8ull, 0x52890bed43ccf4cdull, 0x7a1d0861accd373ull,
  0x227b816ff0fee9edull, 0x59ffbf73aacfc0c4ull, 0x9ab564f2bedad0cull, 0xc05f744f2ee38318ull,
  0x7b50b621d547c661ull, 0xc1f71cb4e68e5d1ull, 0xe33a47881d4dbaaull, 0xf5c3bf198e9a7c2eull,
  0x16328fd8c0f68a91ull, 0xa3e399c9ab3e9a59ull, 0x163ae71cbcbb18b8ull, 0x18f17e4a8c79f7abull,
  0x9250e2ea37014b45ull, 0x7bbbb111d60b03e4ull, 0x3daa4a3071a0bd88ull, 0xa28828d790a2d6dcull,
  0xbc70fc88f64be3f1ull, 0xa3e48008ba4333c7ull, 0x739e435acafc79f7ull, 0x42bbb360be007cc6ull,
  0x4ffb6fd2af74ec92ull, 0x2a799a2994673146ull, 0xbe0a045b69d48e9full, 0x549432f54fc6a278ull,
  0x371d3c60369fc702ull, 0xdb4557d415b08ca7ull, 0xe8692f0a83850b37ull, 0x22e46aeb36e9aabull,
  0x117ac9b814e4652dull, 0xa361041267ae9048ull, 0x277cb51c961c3ddaull, 0xaffc96f377cb8a8dull,
  0x83cc79fa01dd1ba7ull, 0xa494842acf4b802cull, 0xfc6d9cdde2c34a3full, 0x4ed6863ce455f7a7ull,
  0x630914d0db7aae98ull,
},
{ // t1ha_refval_64le
  0x0ull, 0x6a580668d6048674ull, 0xa2fe904aff0d0879ull, 0xe3ab9c06faf4d023ull,
  0x6af1c60874c95442ull, 0xb3557e561a6c5d82ull, 0xae73c696f3d37c0ull, 0x5ef25f7062324941ull,
  0x9b784f3b4ce6af33ull, 0x6993bb206a74f070ull, 0xf1e95df109076c4cull, 0x4e1eb70c58e48540ull,
  0x5fdd7649d8ec44e4ull, 0x559122c706343421ull, 0x380133d58665e93dull, 0x9ce74296c8c55ae4ull,
  0x3556f9a5757ab6d0ull, 0xf62751f7f25c469eull, 0x851eec67f6516d94ull, 0xed463ee3848a8695ull,
  0xdc8791feff8ed3acull, 0x2569c744e1a282cfull, 0xf90eb7c1d70a80b9ull, 0x68dfa6a1b8050a4cull,
  0x94cca5e8210d2134ull, 0xf5cc0beabc259f52ull, 0x40dbc1f51618fda7ull, 0x807945bf0fb52c6ull,
  0xe5ef7e09de70848dull, 0x63e1df35febe994aull, 0x2025e73769720d5aull, 0xad6120b2b8a152e1ull,
  0x2a71d9f13959f2b7ull, 0x8a20849a27c32548ull, 0xbcbc9fe3b57884eull, 0xe028d255667aeadull,
  0xbe66dad3043ab694ull, 0xb00e4c1238f9e2d4ull, 0x5c54bde5ae280e82ull, 0xe22b86754bc3bc4ull,
  0x16707ebf858b84dull, 0x990015fbc9e095eeull, 0x8b9af0a3e71f042full, 0x6aa56e88bd380564ull,
  0xaace57113e681a0full, 0x19f81514afa9a22dull, 0x80daba3d62beac79ull, 0x715210412cabbf46ull,
  0xd8fa0b9e9d6aa93full, 0x6c2fc5a4109fd3a2ull, 0x5b3e60eeb51ddcd8ull, 0xa7c717017756fe7ull,
  0xa73773805ca31934ull, 0x4dbd6bb7a31e85fdull, 0x24f619d3d5bc2db4ull, 0x3e4af35a1678d636ull,
  0x84a1a8df8d609239ull, 0x359c862cd3be4fcdull, 0xcf3a39f5c27dc125ull, 0xc0ff62f8fd5f4c77ull,
  0x5e9f2493ddaa166cull, 0x17424152be1ca266ull, 0xa78afa5ab4bbe0cdull, 0x7bfb2e2cef118346ull,
  0x647c3e0ff3e3d241ull, 0x352e4055c13242eull, 0x6f42fc70eb660e38ull, 0xbebad4fabf523baull,
  0x9269f4214414d61dull, 0x1ca8760277e6006cull, 0x7bad25a859d87b5dull, 0xad645adcf7414f1dull,
  0xb07f517e88d7afb3ull, 0xb321c06fb5ffab5cull, 0xd50f162a1efdd844ull, 0x1dfd3d1924fbe319ull,
  0xdfaeab2f09ef7e78ull, 0xa7603b5af07a0b1eull, 0x41cd044c0e5a4ee3ull, 0xf64d2f86e813bf33ull,
  0xff9fdb99305eb06aull,
},
{ // t1ha_refval_64be
  0x0ull, 0x6a580668d6048674ull, 0xdecc975a0e3b8177ull, 0xe3ab9c06faf4d023ull,
  0xe401fa8f1b6af969ull, 0x67db1dae56fb94e3ull, 0x1106266a09b7a073ull, 0x550339b1ef2c7bbbull,
  0x290a2baf590045bbull, 0xa182c1258c09f54aull, 0x137d53c34be7143aull, 0xf6d2b69c6f42bedcull,
  0x39643eaf2ca2e4b4ull, 0x22a81f139a2c9559ull, 0x5b3d6aef0af33807ull, 0x56e3f80a68643c08ull,
  0x9e423be502378780ull, 0xcdb0986f9a5b2fd5ull, 0xd5b3c84e7933293full, 0xe5fb8c90399e9742ull,
  0x5d393c1f77b2cf3dull, 0xc8c82f5b2ff09266ull, 0xaca0230ca6f7b593ull, 0xcb5805e2960d1655ull,
  0x7e2ad5b704d77c95ull, 0xc5e903cdb8b9eb5dull, 0x4cc7d0d21cc03511ull, 0x8385df382cfb3e93ull,
  0xf17699d0564d348aull, 0xf77ee7f8274a4c8dull, 0xb9d8cee48903babeull, 0xfe0ebd2a82b9cfe9ull,
  0xb49fb6397270f565ull, 0x173735c8c342108eull, 0xa37c7fbbeec0a2eaull, 0xc13f66f462bb0b6eull,
  0xc04f3c2b551467eull, 0x76a9cb156810c96eull, 0x2038850919b0b151ull, 0xcea19f2b6eed647bull,
  0x6746656d2fa109a4ull, 0xf05137f221007f37ull, 0x892fa9e13a3b4948ull, 0x4d57b70d37548a32ull,
  0x1a7cfb3d566580e6ull, 0x7cb30272a45e3facull, 0x137ccffd9d51423full, 0xb87d96f3b82df266ull,
  0x33349aee7472ed37ull, 0x5cc0d3c99555bc07ull, 0x4a8f4fa196d964efull, 0xe82a0d64f281fbfaull,
  0x38a1bac2c36823e1ull, 0x77d197c239fd737eull, 0xfb07746b4e07df26ull, 0xc8a2198e967672bdull,
  0x5f1a146d143fa05aull, 0x26b877a1201ab7acull, 0x74e5b145214723f8ull, 0xe9ce10e3c70254bcull,
  0x299393a0c05b79e8ull, 0xfd2d2b9822a5e7e2ull, 0x85424fea50c8e50aull, 0xe6839e714b1fffe5ull,
  0x27971ccb46f9112aull, 0xc98695a2e0715aa9ull, 0x338e1cbb4f858226ull, 0xfc6b5c5cf7a8d806ull,
  0x8973caadde8da50cull, 0x9c6d47ae32ebae72ull, 0x1ebf1f9f21d26d78ull, 0x80a9704b8e153859ull,
  0x6afd20a939f141fbull, 0xc35f6c2b3b553eefull, 0x59529e8b0dc94c1aull, 0x1569df036ebc4fa1ull,
  0xda32b88593c118f9ull, 0xf01e4155ff5a5660ull, 0x765a2522dce2b185ull, 0xcee95554128073efull,
  0x60f072a5ca51de2full,
},
{ // t1ha_refval_2atonce
  0x0ull, 0x772c7311be32ff42ull, 0x444753d23f207e03ull, 0x71f6df5da3b4f532ull,
  0x555859635365f660ull, 0xe98808f1cd39c626ull, 0x2eb18faf2163bb09ull, 0x7b9dd892c8019c87ull,
  0xe2b1431c4da4d15aull, 0x1984e718a5477f70ull, 0x8dd17b266484f79ull, 0x4c83a05d766ad550ull,
  0x92dcebb131d1907dull, 0xd67bc6fc881b8549ull, 0xf6a9886555fbf66bull, 0x6e31616d7f33e25eull,
  0x36e31b7426e3049dull, 0x4f8e4faf46a13f5full, 0x3eb0cb3253f819full, 0x636a7769905770d2ull,
  0x3adf3781d16d1148ull, 0x92d19cb1818bc9c2ull, 0x283e68f4d459c533ull, 0xfa83a8a88decaa04ull,
  0x8c6f00368eac538cull, 0x7b66b0cf3797b322ull, 0x5131e122fdaba3ffull, 0x6e59ff515c08c7a9ull,
  0xba2c5269b2c377b0ull, 0xa9d24fd368fe8a2bull, 0x22db13d32e33e891ull, 0x7b97dfc804b876e5ull,
  0xc598bdfcd0e834f9ull, 0xb256163d3687f5a7ull, 0x66d7a73c6aef50b3ull, 0x25a7201c85d9e2a3ull,
  0x911573eda15299aaull, 0x5c0062b669e18e4cull, 0x17734ade08d54e28ull, 0xfff036e33883f43bull,
  0xfe0756e7777df11eull, 0x37972472d023f129ull, 0x6cfce201b55c7f57ull, 0xe019d1d89f02b3e1ull,
  0xae5cc580fa1bb7e6ull, 0x295695fb7e59fc3aull, 0x76b6c820a40dd35eull, 0xb1680a1768462b17ull,
  0x2fb6af279137dadaull, 0x28fb6b4366c78535ull, 0xec278e53924541b1ull, 0x164f8aab8a2a28b5ull,
  0xb6c330aeac4578adull, 0x7f6f371070085084ull, 0x94dead60c0f448d3ull, 0x99737ac232c559efull,
  0x6f54a6f9ca8edd57ull, 0x979b01e926bfce0cull, 0xf7d20bc85439c5b4ull, 0x64edb27cd8087c12ull,
  0x11488de5f79c0be2ull, 0x25541ddd1680b5a4ull, 0x8b633d33be9d1973ull, 0x404a3113acf7f6c6ull,
  0xc59dbdef8550cd56ull, 0x39d23c68f4f992cull, 0x5bbb48e4bdd6fd86ull, 0x41e312248780df5aull,
  0xd34791ce75d4e94full, 0xed523e5d04dcdcffull, 0x7a6bce0b6182d879ull, 0x21fb37483cac28d8ull,
  0x19a1b66e8da878adull, 0x6f804c5295b09abeull, 0x2a4be5014115ba81ull, 0xa678ecc5fc924be0ull,
  0x50f7a54a99a36f59ull, 0xfd7e63a39a66452ull, 0x5ab1b213dd29c4e4ull, 0xf3ed80d9df6534c5ull,
  0xc736b12ef90615fdull,
},
{ // t1ha_refval_2atonce128
  0x4ec7f6a48e33b00aull, 0xb7b7faa5bd7d8c1eull, 0x3269533f66534a76ull, 0x6c3ec6b687923bfcull,
  0xc096f5e7efa471a9ull, 0x79d8afb550cea471ull, 0xcee0507a20fd5119ull, 0xfb04cffc14a9f4bfull,
  0xbd4406e923807af2ull, 0x375c02ff11010491ull, 0xa6ea4c2a59e173ffull, 0xe0a606f0002caddfull,
  0xe13beae6ebc07897ull, 0xf069c2463e48ea10ull, 0x75bee1a97089b5faull, 0x378f22f8de0b8085ull,
  0x9c726fc4d53d0d8bull, 0x71f6130a2d08f788ull, 0x7a9b20433ff6cf69ull, 0xff49b7cd59bf6d61ull,
  0xccaaee0d1ca9c6b3ull, 0xc77889d86039d2adull, 0x7b378b5bea9b0475ull, 0x6520bfa79d59ad66ull,
  0x2441490cb8a37267ull, 0xa715a66b7d5cf473ull, 0x9ae892c88334fd67ull, 0xd2ffe9aec1d2169aull,
  0x790b993f18b18cbbull, 0xa0d02fbcf6a7b1adull, 0xa90833e6f151d0c1ull, 0x1ac7afa37bd79be0ull,
  0xd5383628b2881a24ull, 0xe5526f9d63f9f8f1ull, 0xc1f165a01a6d1f4dull, 0x6ccef8ff3fcfa3f2ull,
  0x2030f18325e6df48ull, 0x289207230e3fb17aull, 0x77b66f713a3c4b9ull, 0x9f39843caf871754ull,
  0x512fda0f808accf3ull, 0xf4d9801cd0cd1f14ull, 0x28a0c749ed323638ull, 0x94844cafa671f01cull,
  0xd0e261876b8aca51ull, 0x8fc2a648a4792ea2ull, 0x8ef87282136af5feull, 0x5fe6a54a9fba6b40ull,
  0xa3cc5b8fe6223d54ull, 0xa8c3c0dd651bb01cull, 0x625e9fdd534716f3ull, 0x1ab2604083c33ac5ull,
  0xde098853f8692f12ull, 0x4b0813891bd87624ull, 0x4ab89c4553d182adull, 0x92c15aa2a3c27adaull,
  0xff2918d68191f5d9ull, 0x6363174f641c325ull, 0x667112ada74a2059ull, 0x4bd605d6b5e53d7dull,
  0xf2512c53663a14c8ull, 0x21857bcb1852667cull, 0xafbebd0369aee228ull, 0x7049340e48fbfd6bull,
  0x50710e1924f46954ull, 0x869a75e04a976a3full, 0x5a41abbdd6373889ull, 0xa781778389b4b188ull,
  0x21a3afced6c925b6ull, 0x107226192ec10b42ull, 0x62a862e84ec2f9b1ull, 0x2b15e91659606dd7ull,
  0x613934d1f9ec5a42ull, 0x4dc3a96dc5361bafull, 0xc80bba4cb5f12903ull, 0x3e3edae99a7d6987ull,
  0x8f97b2d55941dcb0ull, 0x4c9787364c3e4ec1ull, 0xef0a2d07bea90ca7ull, 0x5fabf32c70aeeafbull,
  0x3356a5cfa8f23bf4ull,
},
{ // t1ha_refval_2stream
  0x3c8426e33cb41606ull, 0xfd74be70ee73e617ull, 0xf43de3cdd8a20486ull, 0x882fbcb37e8ea3bbull,
  0x1aa2cdd34caa3d4bull, 0xee755b2bfae07ed5ull, 0xd4e225250d92e213ull, 0xa09b49083205965bull,
  0xd47b21724ef9ec9eull, 0xac888fc3858cee11ull, 0x94f820d85736f244ull, 0x1707951cca920932ull,
  0x8e0e45603f7877f0ull, 0x9fd2592c0e3a7212ull, 0x9a66370f3ae3d427ull, 0xd33382d2161de2b7ull,
  0x9a35be079da7115full, 0x73457c7ff58b4ec3ull, 0xbe8610bd53d7ce98ull, 0x65506dfe5ccd5371ull,
  0x286a321af9d5d9faull, 0xb81ef9a7ef3c536dull, 0x2cfdb5e6825c6e86ull, 0xb2a58cbfdfdd303aull,
  0xd26094a42b950635ull, 0xa34d666a5f02ad9aull, 0x151e013ebcc72e5ull, 0x9254a6ea7fcb6bb5ull,
  0x10c9361b3869dc2bull, 0xd7ec55a060606276ull, 0xa2ff7f8bf8976ffdull, 0xb5181bb6852dcc88ull,
  0xee394bb6178baffull, 0x3a8b4b400d21b89cull, 0xec270461970960fdull, 0x615967fab053877eull,
  0xfa51bf1cfeb4714cull, 0x29fda8383070f375ull, 0xc3b663061bc52edaull, 0x192bbaf1f1a57923ull,
  0x6d193b52f93c53afull, 0x7f6f5639fe87ca1eull, 0x69f7f9140b32edc8ull, 0xd0f2416fb24325b6ull,
  0x62c0e37fedd49ff3ull, 0x57866a4b809d373dull, 0x9848d24bd935e137ull, 0xdfc905b66734d50aull,
  0x9a938dd194a68529ull, 0x8276c44df0625228ull, 0xa4b35d00ad67c0abull, 0x3d9cb359842db452ull,
  0x4241bfa8c23b267full, 0x650fa517bef15952ull, 0x782de2abd8c7b1e1ull, 0x4eae456166ca3e15ull,
  0x40cdf3a02614e337ull, 0xad84092c46102172ull, 0xc68479b03f9a167ull, 0x7e1ba046749e181cull,
  0x3f3ab41a697382c1ull, 0xc5e5dd6586ebfdc4ull, 0xff926cd4eb02555cull, 0x35cfe67f89e709bull,
  0x89f06ab6464a1b9dull, 0x8eff58f3f7dea758ull, 0x8b54ac657902089full, 0xc6c4f1f9f8da4d64ull,
  0xbdb729048aaac93aull, 0xea76ba628f5e5cd6ull, 0x742159b728b8a979ull, 0x6d151cd3c720e53dull,
  0xe97fff9368fcdc42ull, 0xca5b38314914fbdaull, 0xdd92c91d8b858eaeull, 0x66e5f07cf647cbf2ull,
  0xd4cf9b42f4985afbull, 0x72ae17ac7d92f6b7ull, 0xb8206b22ab0472e1ull, 0x385876b5cfd42479ull,
  0x3294a249ebe6b26ull,
},
{ // t1ha_refval_2stream128
  0xcd2801d3b92237d6ull, 0x10e4d47bd821546dull, 0x9100704b9d65cd06ull, 0xd6951cb4016313efull,
  0x24db636f96f474daull, 0x3f4af7df3c49e422ull, 0xbff25b8af143459bull, 0xa157ec13538be549ull,
  0xd3f5f52c47dbd419ull, 0xef3d7d735af1575ull, 0x46b7b892823f7b1bull, 0xee22ea4655213289ull,
  0x56ad76f02fe929bcull, 0x9cf6cd1ac886546eull, 0xaf45ce47aea0b933ull, 0x535f9dc09f3996b7ull,
  0x1f0c3c01694ae128ull, 0x18495069be0766f7ull, 0x37e5ffb3d72a4cb1ull, 0x6d6c2e9299f30709ull,
  0x4f39e693f50b41e3ull, 0xb11fc4ef0658e116ull, 0x48bfaacb78e5079bull, 0xe1b4c89c781b3ad0ull,
  0x81d2f34888d333a1ull, 0xf6d02270d2ea449cull, 0xc884c3c2c3ce1503ull, 0x711ae16ba157a9b9ull,
  0x1e6140c642558c9dull, 0x35ab3d238f5dc55bull, 0x33f07b6aef051177ull, 0xe57336776eefa71cull,
  0x6d445f8318ba3752ull, 0xd4f5f6631934c988ull, 0xd5e260085727c4a2ull, 0x5b54b41ec180b4faull,
  0x7f5d75769c15a898ull, 0xae5a6db850ca33c6ull, 0x38ccb8044663403ull, 0xda16310133dc92b8ull,
  0x6a2ffb7ab2b7ce2bull, 0xdc1832d9229bae20ull, 0x8c62c479f5abc9e4ull, 0x5eb7b617857c9ccbull,
  0xb79cf7d749a1e80dull, 0xde7fac3798324fd3ull, 0x8178911813685d06ull, 0x6a726cbd394d4410ull,
  0x6cbe6b3280da1113ull, 0x6829ba4410cf1148ull, 0xfa7e417eb26c5bc6ull, 0x22ed87884d6e3a49ull,
  0x15f1472d5115669dull, 0x2ea0b4c8bf69d318ull, 0xdfe87070aa545503ull, 0x6b4c14b5f7144ab9ull,
  0xc1ed49c06126551aull, 0x351919fc425c3899ull, 0x7b569c0fa6f1bd3eull, 0x713ac2350844cffdull,
  0xe9367f9a638c2ff3ull, 0x97f17d325aea0786ull, 0xbcb907cc6cf75f91ull, 0xcb7517daf247719ull,
  0xbe16093cc45be8a9ull, 0x786eee97359ad6abull, 0xb7afa4f326b97e78ull, 0x2694b67fe23e502eull,
  0x4cb492826e98e0b4ull, 0x838d119f74a416c7ull, 0x70d6a91e4e5677fdull, 0xf3e4027ad30000e6ull,
  0x9bdf692795807f77ull, 0x6a371f966e034a54ull, 0x8789cf41ae4d67efull, 0x2688755484d60aeull,
  0xd5834b3a4bf5ce42ull, 0x9405fc61440de25dull, 0x35eb280a157979b6ull, 0x48d40d6a525297acull,
  0x6a87dc185054badaull,
},
};
const u8 g_pattern[64] = {0, 1, 2, 3, 4, 5, 6, 7, 0xFF, 0x7F, 0x3F, 0x1F, 0xF, 8, 16, 32, 64, 0x80, 0xFE, 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11, 17, 19, 23, 29, 37, 42, 43, 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x'};
