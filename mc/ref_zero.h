/* generated by tools/gen_ref_zero.c */
static const uint8_t lz_digest[ NALG ][ 64 ] = {
{203,136,81,106,140,0,230,79,91,242,19,243,103,57,147,155,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{238,114,110,236,245,39,130,48,218,248,242,40,77,153,212,203,33,127,144,240,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{81,57,160,59,80,159,216,30,221,198,60,20,121,230,244,57,180,104,137,78,56,78,175,88,17,219,227,95,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{241,241,6,84,222,217,211,189,58,164,8,166,99,140,73,11,26,78,136,20,184,7,65,65,177,63,240,217,118,213,60,207,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{2,124,163,42,161,87,101,14,65,53,167,204,234,94,106,223,214,114,63,20,183,123,111,101,48,13,161,142,60,148,135,68,8,120,135,230,222,148,137,97,226,151,107,41,163,132,69,221,125,183,214,141,122,141,45,212,232,194,91,162,53,16,117,35,},
};
static const uint8_t lz_hmac[ NALG ][ 64 ] = {
{116,197,58,67,169,87,223,112,141,142,164,97,71,154,127,30,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{76,209,114,150,209,89,41,203,36,103,105,5,7,106,229,152,246,191,189,84,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{87,98,70,64,72,205,243,126,101,54,162,65,223,56,193,24,62,239,81,97,125,141,110,10,42,201,225,26,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{190,110,98,4,225,232,117,130,1,107,1,19,141,233,220,32,238,100,119,116,184,87,11,231,162,176,14,217,206,183,86,165,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{59,194,67,91,231,39,29,13,116,94,234,250,201,132,250,138,206,216,0,234,191,15,254,119,70,192,222,182,85,141,129,173,70,231,168,154,212,14,85,254,224,104,32,167,206,94,233,30,243,232,51,118,43,67,196,7,190,252,61,151,115,242,58,166,},
};
static const uint8_t lz_hkey[ NALG ][ 64 ] = {
{95,184,135,47,172,208,120,209,82,238,8,147,204,144,133,69,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{213,168,205,61,248,10,177,28,24,134,73,92,33,77,165,202,21,95,132,225,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{214,125,65,15,86,81,145,99,222,141,180,93,3,162,157,138,149,78,96,168,181,11,121,50,169,226,242,191,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{30,202,1,25,71,135,223,225,190,169,201,196,183,18,242,209,15,228,247,224,63,195,144,233,226,28,216,69,226,118,180,173,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,},
{206,227,151,86,72,218,249,41,210,184,9,129,98,2,65,82,71,230,94,132,21,20,224,162,133,2,223,238,121,102,182,169,218,168,35,140,249,214,250,37,144,90,173,16,214,76,255,172,235,172,40,199,153,182,192,34,105,157,172,243,53,79,43,118,},
};
