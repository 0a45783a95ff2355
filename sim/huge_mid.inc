{0,0,535822336ULL,{0x6621d963ULL,0xe9388010ULL,0xa5c0734ULL,0xf6fc97bdULL,0x634ee3c6ULL,0x0ULL,0x0ULL,0x0ULL}},
{0,0,2146435072ULL,{0x917b076bULL,0xa512b28cULL,0xb9b991b0ULL,0x1019c5bdULL,0x84c5401eULL,0x0ULL,0x0ULL,0x0ULL}},
{0,0,4293918720ULL,{0x35761d2eULL,0x13ff44f0ULL,0x348e2988ULL,0x90ff547ULL,0x34340a48ULL,0x0ULL,0x0ULL,0x0ULL}},
{0,1,535822336ULL,{0xaa0b24baULL,0x9d8f7d92ULL,0x44aca264ULL,0x6d11ffa1ULL,0x33fa660eULL,0xa073b2a1ULL,0x7fe5b0cbULL,0xf68b4b3cULL}},
{0,1,2146435072ULL,{0x467eeb43ULL,0xf5d379b0ULL,0x84df6426ULL,0x89551f99ULL,0x53dc4853ULL,0x26d2a596ULL,0x3143335eULL,0x43e8153cULL}},
{0,1,4293918720ULL,{0xbc4424a2ULL,0xd55daaf2ULL,0xe621e092ULL,0xa489bbULL,0x48753c64ULL,0x1fac4389ULL,0xc1ccb465ULL,0xf6ca1a54ULL}},
{0,2,535822336ULL,{0xc320c190ULL,0x99674ef3ULL,0xee0989ebULL,0x8f369f3bULL,0xb6003be9ULL,0x42f07b70ULL,0xaa2f7184ULL,0xe1ade075ULL}},
{0,2,2146435072ULL,{0xca80596dULL,0x33f684b8ULL,0xa663fa89ULL,0xbe141d12ULL,0x5911770bULL,0x50a3b9fULL,0x1f2cf78bULL,0xefd811feULL}},
{0,2,4293918720ULL,{0x62b8bfe5ULL,0x46f4af14ULL,0x1ae01614ULL,0xe5abd141ULL,0x7354cc01ULL,0x550a3dedULL,0x4a20dd44ULL,0x61c20278ULL}},
{0,3,535822336ULL,{0xb26d5dfe4a447d1fULL,0xf457dad778b91a30ULL,0x838c026c97e060d2ULL,0x3136160e15907f0fULL,0x2c2199a2eebd7417ULL,0x4c7988aadc5e68b5ULL,0xa2df91210cfc5d01ULL,0x79c132c6b6aec0ceULL}},
{0,3,2146435072ULL,{0x366ed93ba209bf4bULL,0x5e26617f7c5cec1cULL,0x19a33a51fc039a23ULL,0x2c9d21251ead5faULL,0x416b5c44c9b9915aULL,0x77aad18bac2f7422ULL,0xf854a9c40c272dd2ULL,0x47886ac12afcb1ebULL}},
{0,3,4293918720ULL,{0xbbc639bbdc6a8fccULL,0xdc1bf9774cc4d8e3ULL,0xb94cfa2a772e1925ULL,0xc16312958e2e90a9ULL,0x8813da682ac12e54ULL,0x3dd38be247c083ceULL,0xea6feec9b866e467ULL,0x93b0fa039863c2d4ULL}},
{0,4,535822336ULL,{0x544841e828efe41cULL,0xc7dbebc384ca39d2ULL,0x6bd10b10e974e817ULL,0x606ad08efb5fa1b3ULL,0xcf73ff968e5ff1abULL,0xe2dada6161c2e2a0ULL,0x851ed841a1504cadULL,0xf8dedee721157088ULL}},
{0,4,2146435072ULL,{0xffa272a578625cfaULL,0x69f6bf69c2018c1ULL,0x93f4cf3a54ef3361ULL,0xa39079c9a0ea1fc2ULL,0x3aab6b5dcb3e1f2fULL,0x7ecc53e0ff0530dULL,0xace4b0d4931cea81ULL,0xcf25814ae4697294ULL}},
{0,4,4293918720ULL,{0xa1c798487696bae2ULL,0x36c310d6955de827ULL,0xcb1316690a8fa45bULL,0x61c8077147c596eeULL,0xd8bafbdf58eea4eeULL,0xf36d276c390e9471ULL,0xaa4b0d07c6a12fadULL,0x8eea7786be1bc503ULL}},
{0,5,535822336ULL,{0x50b619589634ddf9ULL,0x46fbc2c68f1db41cULL,0x99c6590537dbb82fULL,0x921d787982c8a356ULL,0xff52b557dea60444ULL,0xa4b01c1a9c9aac2bULL,0x4fb0a642d7a0cb8bULL,0xa9b2d59a632e28daULL}},
{0,5,2146435072ULL,{0x89fdfc15d2ff2f0bULL,0xc79639290719be32ULL,0xefaabe803262bf1cULL,0xaf56dd2e8301ff66ULL,0xa275c555f8815ff5ULL,0x9e161e4454e260b7ULL,0xaf5a5d75e34ec04aULL,0x6caddfe2130a2cb5ULL}},
{0,5,4293918720ULL,{0xd262a6867646e7ULL,0xa2079025de4f3eeaULL,0x6ffc501908ca2143ULL,0xb78a12250385b05ULL,0xc22cf849d34e385ULL,0x76061acca08eaf63ULL,0x3cc490198ab5f31aULL,0xa8396c38711ef278ULL}},
{0,6,535822336ULL,{0x58fd851ceec19e9dULL,0xf0324ff8dd1d376fULL,0xbbed6a2391d9ff62ULL,0x7b5bc23053062244ULL,0x843e6090abb18ad5ULL,0x766051b6addec9eaULL,0x6d996a00a48b31fdULL,0x495a2441e90722c9ULL}},
{0,6,2146435072ULL,{0xe209622c4aeefa39ULL,0xd8e92fd9be7b43f4ULL,0xa6e0e5353fd8e12dULL,0x90c0b4fcc79f565ULL,0xc854eb5aca126a94ULL,0x88f6a8bfc1da6715ULL,0x9898699f946744b5ULL,0xc70e784ddaa253a7ULL}},
{0,6,4293918720ULL,{0x968e840848b389faULL,0x2be6dcc2514690f8ULL,0xfea8303d8ce45237ULL,0x1169ed2f8b8e5accULL,0x27f45740c50d131ULL,0xe52d30b6f4c0fc7bULL,0xe0d3e8750ab248acULL,0x8ce638b68c845a29ULL}},
{1,0,535822336ULL,{0xf5eab616ULL,0x548ecd42ULL,0x85f16ff9ULL,0xd790e489ULL,0x19c2c75aULL,0x0ULL,0x0ULL,0x0ULL}},
{1,0,2146435072ULL,{0x8c8c20d5ULL,0x5290c90dULL,0x77f2aa8aULL,0x6e015832ULL,0xcbdc933cULL,0x0ULL,0x0ULL,0x0ULL}},
{1,0,4293918720ULL,{0xf4b66d6eULL,0x10c34df0ULL,0x6d8df8abULL,0xcb1c8a6bULL,0xf75347daULL,0x0ULL,0x0ULL,0x0ULL}},
{1,1,535822336ULL,{0xfd9de233ULL,0x519828cbULL,0x895dc3d4ULL,0xbe8cfb8dULL,0x49f7c101ULL,0xc67dd283ULL,0xe7fb2c26ULL,0xb4361b00ULL}},
{1,1,2146435072ULL,{0xcf1b2e57ULL,0x5ae987ULL,0x192b45a2ULL,0xa87c730eULL,0x9cea9eecULL,0xd4518efULL,0x2b2bffc2ULL,0xcb60e2c8ULL}},
{1,1,4293918720ULL,{0xf9d2bb47ULL,0xd93c12bULL,0xc1ce75e6ULL,0x79065a7ULL,0xae6d66fdULL,0x182a7fd5ULL,0xf62ea18eULL,0x14362819ULL}},
{1,2,535822336ULL,{0xe73ec44aULL,0x43f19690ULL,0xe5529f69ULL,0x54a74f8cULL,0x1978f32aULL,0x4d3bc2edULL,0x711d4991ULL,0x9097fad7ULL}},
{1,2,2146435072ULL,{0xf9468456ULL,0x2899dbaULL,0xac4295dbULL,0x2dfd21ecULL,0xa8c6a29bULL,0xbda78f51ULL,0xdfcec066ULL,0xf8bb743eULL}},
{1,2,4293918720ULL,{0x5e52ce5eULL,0xf44e591eULL,0x22ef4a39ULL,0x774c997fULL,0x1d5ce1e9ULL,0xe20106b5ULL,0xf491810fULL,0x77c575b2ULL}},
{1,3,535822336ULL,{0xebe50c6f604ab1efULL,0x1cda993f53943283ULL,0x84d8831de8ffa31ULL,0x3e7ad890784d97bfULL,0x1ed7a4f17e87a922ULL,0xb28fdd275760e791ULL,0x3bd5a654ccef6ecULL,0x2f4f88794d768f1eULL}},
{1,3,2146435072ULL,{0x61a8319381f4c212ULL,0x8c8ad24318f2483cULL,0x15dcea343848a87dULL,0x45a9ebc415ac454dULL,0x39f5f097ad28d21bULL,0x2141a87a7e087997ULL,0xc7a45265f279563bULL,0x161d94a8225bb53cULL}},
{1,3,4293918720ULL,{0xfc6f134b48869cfdULL,0xef2e5bcfb66691e6ULL,0xc89ee24053c3c2f3ULL,0xab5d8ebfebf71a88ULL,0xde1f3b3300c4a023ULL,0xba60745b3a52648eULL,0x38976474c1fe012eULL,0xa23f97bccce7cf72ULL}},
{1,4,535822336ULL,{0xe5cdc113655ad97dULL,0x222f323551fdc8a9ULL,0x222e5e0fada963f6ULL,0x43699ade50af23b8ULL,0xbdb00f28d5740eedULL,0x4aab1adc61484706ULL,0xed389bb3642c967bULL,0xb4cd57f9127e94acULL}},
{1,4,2146435072ULL,{0x79470caaf2df5c2cULL,0x27ba21fd6ab31779ULL,0x39900795c4b53e8fULL,0x2761193796bd1966ULL,0x67f9f2f9c7f09786ULL,0x5d46493b76a5b56bULL,0xf3b52c58acaac858ULL,0x67486f1325cc511fULL}},
{1,4,4293918720ULL,{0x8624700cf2dbd6b5ULL,0x6340e3728d110aafULL,0xf61fc99f4e4b4047ULL,0xd702f5f2ec4048a9ULL,0x41a302c470b10e27ULL,0xbd0acffc13334afaULL,0xd17d2d4be44a88bbULL,0x4be4815a0371844ULL}},
{1,5,535822336ULL,{0xa18a7148b62cc620ULL,0xbf8b6f025529267ULL,0x41b711713eb31bb9ULL,0xf2f0da2557ca2f49ULL,0x90e8a4309e33de32ULL,0x5b8951f621b6a0bcULL,0xe65b3ab1cf79e554ULL,0xad7ab7fc8cc0a11aULL}},
{1,5,2146435072ULL,{0x951f45c74ff102e8ULL,0x13070072dfa4be58ULL,0x5e6196748a629240ULL,0xffa05834659b7c2bULL,0x9f9c79ed659cccaeULL,0xf3bc2c3c60237b71ULL,0x8ff780f46b1873cdULL,0x5ea93ee2a1fc7b92ULL}},
{1,5,4293918720ULL,{0x478ffec9b426886bULL,0x5d78a615f1753a2aULL,0x31a0b0bd28c96aacULL,0x2d649d9f7071cd4dULL,0xf12ff6bdfe706c4cULL,0x85b24446b077a4f5ULL,0x6847a45cc8e5d99cULL,0x4ea5d4cb70984d71ULL}},
{1,6,535822336ULL,{0x567ea78cbce8208cULL,0x81cd8b2ad93a2dd8ULL,0xb92133c0aafa2775ULL,0xb5424a381e2ef76dULL,0x59c0fef1d569c86cULL,0x53b3b30019129964ULL,0x9ebe59e822820dcbULL,0xac1f91970fff08a9ULL}},
{1,6,2146435072ULL,{0x26abf67e6a50e6e0ULL,0xf6f6524e70a18843ULL,0xd303a588487dc610ULL,0x4eb44d2cce06f60aULL,0xbfcc1ef67d6ef6acULL,0xc2f9f4ecc9861451ULL,0x1ca127ef498e47dULL,0x5c5497d9f7dd6949ULL}},
{1,6,4293918720ULL,{0xc2adcd368484ea5ULL,0xf8c9f3757d7ec0caULL,0x909f098fc95617c3ULL,0xece45c7acefa13ddULL,0xe45c8698b315f703ULL,0x97c441da51ccfda4ULL,0x423cbb0eeef7f641ULL,0xddb8395f89a8e00bULL}},
{2,0,535822336ULL,{0x33fa2e5ULL,0x5205aaULL,0x137f74ULL,0x15cac53ULL,0x3899fc4ULL,0x0ULL,0x0ULL,0x0ULL}},
{2,0,2146435072ULL,{0x50fadfULL,0x125bdf0ULL,0x2975b74ULL,0x2343f88ULL,0xb6b3feULL,0x0ULL,0x0ULL,0x0ULL}},
{2,0,4293918720ULL,{0xe5e0bfULL,0x6bf6b1ULL,0x99fe53ULL,0x20920cdULL,0x2598476ULL,0x0ULL,0x0ULL,0x0ULL}},
