/* generated by tools/gen_ref_large.c */
static const uint64_t lck_state[ NALG ][ 2 ][ LCK ][ 8 ] = {
{
{{0x196f8667ULL,0x8ae29f7fULL,0x1f5946e2ULL,0x2a582df5ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x51dfb21bULL,0xa7863fd4ULL,0x30fa221ULL,0x8699aeULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0xcf601e03ULL,0x335e455aULL,0x845b2a7dULL,0x9be90cf8ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x8f4ae4bdULL,0xad5eb4feULL,0x54ffa804ULL,0x4a84f93bULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x1ceb3ee5ULL,0x35856a85ULL,0xb157f7ceULL,0x6c8b8554ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
},
{{0x2eaa3b6bULL,0x4a28383fULL,0x7bc2fbdcULL,0x35d8859eULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x53a33174ULL,0xa20b7072ULL,0x35baac20ULL,0xc02c5941ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x38ee57b1ULL,0xf9eff79dULL,0x732f62eeULL,0x8c2a6b6eULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x7bb95fe6ULL,0x4345066aULL,0x52f4adbfULL,0x72dcec23ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x7c19b340ULL,0x9a32ec20ULL,0x4408c657ULL,0xef135857ULL,0x0ULL,0x0ULL,0x0ULL,0x0ULL,},
},
},
{
{{0xc9dbe370ULL,0x9cdb60eeULL,0xe2f4a6fcULL,0x36eeeb85ULL,0xfc232db0ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x60d1c8bbULL,0xd04326d5ULL,0x83fcdeb2ULL,0xfc46dda8ULL,0xc585fa4ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x199079deULL,0x50df885fULL,0x795e3163ULL,0x99ff8d26ULL,0xcf1d613ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x6bfd764bULL,0xb8c8c1b9ULL,0x7eea0f02ULL,0xf6533fdbULL,0x4ef35e8aULL,0x0ULL,0x0ULL,0x0ULL,},
{0xf98d43b6ULL,0x78fd570cULL,0xbb77cdf0ULL,0x9a00a789ULL,0xda64fda2ULL,0x0ULL,0x0ULL,0x0ULL,},
},
{{0x88059794ULL,0xa8b7d7b1ULL,0xda681518ULL,0x9c1615b0ULL,0xf02150e5ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x98ab0f8bULL,0x6572c620ULL,0x9ca5a4aULL,0xc07df8caULL,0xbc1d4407ULL,0x0ULL,0x0ULL,0x0ULL,},
{0x9eceaa36ULL,0x21994ec1ULL,0x5e76e65dULL,0x4890ed12ULL,0x277b53dbULL,0x0ULL,0x0ULL,0x0ULL,},
{0x779617f9ULL,0x1e74fd53ULL,0x29c02468ULL,0x9b5d77b5ULL,0xb4c7c68fULL,0x0ULL,0x0ULL,0x0ULL,},
{0xaee30fdULL,0xe6290683ULL,0x55790698ULL,0xb9879149ULL,0x8fe2497eULL,0x0ULL,0x0ULL,0x0ULL,},
},
},
{
{{0x78b5576cULL,0x75f494f4ULL,0xb181ebaeULL,0x1e92da5fULL,0x69ec8b19ULL,0xfe061aa6ULL,0x2046635ULL,0xa46dbae5ULL,},
{0x4fcd7fc2ULL,0xec52032ULL,0x311d809eULL,0x282861baULL,0x1e7a07dfULL,0x7991d40cULL,0xbc90ca10ULL,0x649c1c2eULL,},
{0x634cf659ULL,0xd6bf3cf5ULL,0xacd34ba1ULL,0xf61ee9dfULL,0xddca70aULL,0x7567ac67ULL,0xb317506dULL,0x792b8a7ULL,},
{0x572ac609ULL,0xd7cce27dULL,0xfe1401b8ULL,0xb1465572ULL,0xb1883d14ULL,0x2f8c121eULL,0x43b8a154ULL,0x9147f163ULL,},
{0x2a18e7d1ULL,0x8766f3afULL,0x38d510d4ULL,0xb70bcb53ULL,0x5646eee1ULL,0xce4e7d3cULL,0x343adcbaULL,0xd7689f0aULL,},
},
{{0x631e568eULL,0x163bf443ULL,0x9da15e0bULL,0xb85fe67aULL,0xdee495eeULL,0x96c842b7ULL,0x26785cfbULL,0xc3762f39ULL,},
{0x8fe0fd63ULL,0xc43d845cULL,0xbb763fb0ULL,0x54b70a88ULL,0x94df8d49ULL,0x397fe731ULL,0xdb96bce7ULL,0x8725ffd6ULL,},
{0x669aa56ULL,0x32348710ULL,0x99c6a859ULL,0x484495ULL,0xa239bd8ULL,0xbba96927ULL,0xe7b91409ULL,0x370dad20ULL,},
{0xa63d21c1ULL,0xb35010a3ULL,0x12c1f3dbULL,0x7512a1baULL,0x9e46481bULL,0x786f5af1ULL,0x9fb7a318ULL,0x7eebd2e8ULL,},
{0xd0e6a3a9ULL,0x482e196aULL,0x9b8bd0d9ULL,0x6940bf24ULL,0xd01aed1ULL,0x31000ebbULL,0x571ffea5ULL,0x4f11c086ULL,},
},
},
{
{{0x19641abaULL,0x53339d02ULL,0x7de31f36ULL,0xa871db0cULL,0x34c9678bULL,0xbdcb2525ULL,0x71f43f1cULL,0x9fe39d23ULL,},
{0xef2b80cbULL,0xf5343712ULL,0xccab9a12ULL,0x1d283ba9ULL,0x7d4b0c1fULL,0x7a8bbe0cULL,0x71ffdaefULL,0x8bdc24c2ULL,},
{0x44d1bc8fULL,0xd93a8658ULL,0xcc652f9ULL,0x32777abaULL,0xd764c314ULL,0x62bc299bULL,0x9b862dfeULL,0x9921f25cULL,},
{0x75133bcbULL,0x8c4c46edULL,0x540e5872ULL,0xf28bfdf9ULL,0x5f74167aULL,0x289b42d2ULL,0xfbd0923bULL,0xe9fc2b24ULL,},
{0x5e563e34ULL,0xaab55fdfULL,0xff2c82b1ULL,0x4a82a97ULL,0x44b0d92fULL,0xf85de443ULL,0x859bc19bULL,0x40633aa9ULL,},
},
{{0x299e26cdULL,0x587258aeULL,0xecf27b9eULL,0xabefa400ULL,0xe1a53727ULL,0x837c8a47ULL,0x279c836ULL,0xb561f545ULL,},
{0x3094fe3ULL,0x36541c66ULL,0xaa2b3763ULL,0xfff5c669ULL,0x2eb26847ULL,0x24bff3abULL,0x28420c62ULL,0x3f7c1219ULL,},
{0xa1e5ceb6ULL,0xb350ceeaULL,0xd2fa7fbaULL,0x1eeaa677ULL,0xde24537ULL,0x3529e833ULL,0x64d0acd7ULL,0x500870aeULL,},
{0x90cee932ULL,0xf648c584ULL,0xa1041c9eULL,0xe21f8021ULL,0x31afa813ULL,0xec396aa4ULL,0x71f9dd9fULL,0x949245d8ULL,},
{0xd922d29ULL,0x77839853ULL,0x467cc750ULL,0x12f16693ULL,0x454ae7b0ULL,0xe094efc0ULL,0x9dfd0b98ULL,0x3d0e7831ULL,},
},
},
{
{{0x9488be657b87e1cbULL,0xc26d2b7aa22563ccULL,0xfce4f8207546c1e2ULL,0x24923a7bf825824cULL,0x5683f9b9e09f25acULL,0xb4f8ece93d663d92ULL,0x25a5953289e9a6c8ULL,0x4bfc259a9448feafULL,},
{0xf3e477511a5c6712ULL,0xda32511cc447a914ULL,0x5d55f84b79400ad2ULL,0x255a05a2dd7b830fULL,0xf0195b1e6145eaaULL,0x44838614c3926e7ULL,0xacd908c726929707ULL,0xc71cd2e2d0b9e74aULL,},
{0x536a80d89616f7ccULL,0xfd15ea173f7f4ef7ULL,0xee09b93b38e10e09ULL,0xaae0641e4dfd56f2ULL,0xe47e009d04dc30fdULL,0x232756ff88d00318ULL,0x5c16936578b63e34ULL,0x13e49540e858df98ULL,},
{0x6500db4c5ba3d242ULL,0x5c66679db3c1490bULL,0xc3a8a3eca0725e1bULL,0x33d5d68fd87e706aULL,0x1c48050419c7de1fULL,0x17338cafb0921349ULL,0x4b2705d2c77cec4ULL,0x46bb843ddc4022bfULL,},
{0xdc8f60ef2c13f78aULL,0x96a943692bc105aaULL,0xebf6e0bb3bc07847ULL,0xb3a6cb680d51e4c5ULL,0xeaf99ae6afa0dfe2ULL,0x255cca0fed7a9593ULL,0xdeb9c01f78ef8939ULL,0x8ad29d7e71a38f5aULL,},
},
{{0x499d8799db8d0b70ULL,0x38fde3eef35973d4ULL,0xa54b3967c3315210ULL,0xcf85325d93984505ULL,0xf2b810d6946f23faULL,0x1adc6f04926a617cULL,0xbbee983f08bca835ULL,0x80d63d2536e1542bULL,},
{0xb3301168a3238df0ULL,0x9b646bb66be58a24ULL,0x60322a52795e964fULL,0x49545362eba6bfd7ULL,0xa69e9e5be2726694ULL,0xa54bfb439c6b0b00ULL,0x1a120c1e41a94dc0ULL,0x65880ae23ec2cb6ULL,},
{0x98b3c0c03adadeddULL,0xfbc2793f77fce3e4ULL,0xefba1d0ac5c6f854ULL,0x40d7048acc4780eeULL,0xb6dcf1507b4a24ebULL,0x9f53a5c851bc6070ULL,0xb7795813acd9f777ULL,0x6c47b6031a3b898dULL,},
{0xb8e5ee291430fcd3ULL,0xb0b1b03fd55ac540ULL,0x505256b8b671f172ULL,0xe311e91ea314a282ULL,0x9aacd29aa2d5d87aULL,0xb6c615cbe33a094fULL,0xe9cb8f07d8c23e9bULL,0xa7b0900b23e0d679ULL,},
{0xefd26d5a141d8f7aULL,0x27af2c25a200df8cULL,0x444355c4f5faa1bbULL,0x6de2daee34345d42ULL,0xd8a578856e1238eaULL,0x5844b474d4e11719ULL,0x274b0004aace333fULL,0xa50bdfc9cf38ed0fULL,},
},
},
};
