/*UNIT
{"kind":"bounded","bound":"at most 2 entries configured (each a single address or a block of any prefix length, written with up to 3 digits; for IPv6 look-ups one entry with prefix length 1, 33, 64, 127 or none), any addresses, any address looked up",
 "functions":["IpChunk_Add","IpChunk_Find","IpSet_Parse","IpAddr_Parse","IpSet_IsSingleIp","Contain"],
 "link":["ipchunk.c"],"havoc":["Bst_Init","StableBuffer_Init","IPv4AddressToNum","IPv6AddressToNum","atoi"],
 "cbmc":["--unwind","132","--object-bits","12"],"cost":40,"timeout":300,
 "variants":[{"name":"44","defines":["K0=4","K1=4","Q6=0","S0=1","S1=1"]},{"name":"44s","defines":["K0=4","K1=4","Q6=0","S0=0","S1=1"]},{"name":"44t","defines":["K0=4","K1=4","Q6=0","S0=0","S1=0"]},{"name":"46","defines":["K0=4","K1=6","Q6=0","S0=1","S1=1"]},{"name":"6_1","defines":["K0=6","K1=6","Q6=1","S0=1","S1=1","NE=1","BSTM_ROOM=1","DIG={49,0,0,0}"]},{"name":"6_33","defines":["K0=6","K1=6","Q6=1","S0=1","S1=1","NE=1","BSTM_ROOM=1","DIG={51,51,0,0}"]},{"name":"6_64","defines":["K0=6","K1=6","Q6=1","S0=1","S1=1","NE=1","BSTM_ROOM=1","DIG={54,52,0,0}"]},{"name":"6_127","defines":["K0=6","K1=6","Q6=1","S0=1","S1=1","NE=1","BSTM_ROOM=1","DIG={49,50,55,0}"]},{"name":"6_one","defines":["K0=6","K1=6","Q6=1","S0=1","S1=1","NE=1","BSTM_ROOM=1","DIG={0,0,0,0}"]}],
 "trusted":["assumed contract of the search tree (checked under C04), whose requirement on the order is proved in unit order","text-to-address conversion: stand-ins that return any address (checked under C14)","atoi: stand-in with the C meaning"]}
*/
#include "vp.h"
#include <string.h>
#include "ipchunk.h"
#define BSTM_T IpElement
#include "stubs/bst2_contract.h"
#ifndef NE
#define NE 2
#endif
#define SL(k) ((k) == 0 ? S0 : S1)
typedef struct { unsigned char a[3][16], q[16]; char dig[3][4]; _Bool pad; int type[3], t0; unsigned pick; unsigned char sel; _Bool data[3]; } IN;
VP_INPUTS(IN)
static char x0[16], x1[16], x2[16], d0[8], d1[8], d2[8];
static int nx, nd;
static void *sb_extra(StableBuffer *s, const void *d, int len, BOOL al)
{ char *p = nx == 0 ? x0 : nx == 1 ? x1 : x2; int i; nx++; ASSUME(len <= 16); for( i = 0; i < 16; ++i ) if( i < len ) p[i] = ((const char *)d)[i]; return p; }
static void *sb_data(StableBuffer *s, const void *d, int len, BOOL al)
{ char *p = nd == 0 ? d0 : nd == 1 ? d1 : d2; nd++; CHECK(len == 3, "the data's length"); p[0] = ((const char *)d)[0]; p[1] = ((const char *)d)[1]; p[2] = ((const char *)d)[2]; return p; }
static IpChunk ic;
#ifdef __CPROVER
int memcmp(const void *a, const void *b, size_t n)
{ const unsigned char *x = a, *y = b; size_t i; for( i = 0; i < n; ++i ) if( x[i] != y[i] ) return x[i] - y[i]; return 0; }
#endif
static char dig[3][4];
int StableBuffer_Init(StableBuffer *s){ s->Add = s == &ic.Extra ? sb_extra : sb_data; return 0; }
static int conv(const char *s, char want, void *b, int n)
{
    int i, k = s[0] - '1', j;
    CHECK(k >= 0 && k < NE, "the address part of an entry is converted");
    for( j = 0; s[j] != 0 && s[j] != '/'; ++j ) ;
    CHECK(s[j] == 0 && j == 4, "the prefix length is not part of the address");
    for( i = 0; i < n; ++i ) ((unsigned char *)b)[i] = in.a[k][i];
    return n;
}
int IPv4AddressToNum(const char *asc, void *b){ return conv(asc, '.', b, 4); }
int IPv6AddressToNum(const char *asc, void *b){ return conv(asc, ':', b, 16); }
int atoi(const char *s)
{ int v = 0, i; for( i = 0; i < 3 && s[i] >= '0' && s[i] <= '9'; ++i ) v = v * 10 + (s[i] - '0'); return v; }

static int bits(int k, int full)   /* prefix length of entry k */
{
    int v = 0, i;
    if( !SL(k) || dig[k][0] == 0 ) return full;
    for( i = 0; i < 3 && dig[k][i]; ++i ) v = v * 10 + (dig[k][i] - '0');
    return v > full ? full : v;
}
static int covers(int k, int fam)
{
    int i, n = fam == 4 ? 32 : 128, b = bits(k, n);
    if( fam != ((Q6) ? 6 : 4) ) return 0;
    for( i = 0; i < 16; ++i )
    {
        int rest = b - 8 * i, m = rest >= 8 ? 0xff : rest <= 0 ? 0 : (0xff << (8 - rest)) & 0xff;
        if( ((in.a[k][i] ^ in.q[i]) & m) != 0 ) return 0;
    }
    return 1;
}
static void add(int k, int fam)
{
    char s[12], d[3];
    int i;
    s[0] = '1' + k; s[1] = fam == 4 ? '.' : ':'; s[2] = s[1]; s[3] = '1';
    for( i = 4; i < 12; ++i ) s[i] = 0;
    if( SL(k) )
    {
        s[4] = '/';
        for( i = 0; i < 3; ++i ) { ASSUME(dig[k][i] == 0 || (dig[k][i] >= '0' && dig[k][i] <= '9')); s[5 + i] = dig[k][i]; }
    }
    d[0] = 'D'; d[1] = k; d[2] = 0;
    CHECK(IpChunk_Add(&ic, s, in.type[k], in.data[k] ? d : NULL, 3) == 0, "an entry is taken");
}
static void run(const char *p0, const char *p1)
{
    int k, c[3] = {0, 0, 0}, fam[3], any = 0, r, t;
    const char *d = NULL;
    for( k = 0; k < 4; ++k )
    {
        dig[0][k] = p0 == NULL ? (k < 3 ? in.dig[0][k] : 0) : p0[k];
        dig[1][k] = p1 == NULL ? (k < 3 ? in.dig[1][k] : 0) : p1[k];
    }
    bstm_pick = in.pick;
    
    CHECK(IpChunk_Init(&ic) == 0, "init");
    fam[0] = K0; fam[1] = K1;
    { add(0, K0); c[0] = covers(0, K0); }
    if( NE > 1 ) { add(1, K1); c[1] = covers(1, K1); }
    any = c[0] || c[1] || c[2];
    t = in.t0;
    r = IpChunk_Find(&ic, in.q, (Q6) ? 16 : 4, &t, &d);
    CHECK(!!r == any, "an address is found exactly when an entry covers it");
    if( r )
    {
        int ok = 0, best = -1;
        for( k = 0; k < NE; ++k ) if( c[k] && bits(k, fam[k] == 4 ? 32 : 128) > best ) best = bits(k, fam[k] == 4 ? 32 : 128);
        for( k = 0; k < NE; ++k )
            if( c[k] && bits(k, fam[k] == 4 ? 32 : 128) == best && t == in.type[k] &&
                (in.data[k] ? (d != NULL && d[0] == 'D' && d[1] == k) : d == NULL) ) ok = 1;
        CHECK(ok, "what is found belongs to the most specific entry that covers the address");
        REACH("found");
    } else { CHECK(t == in.t0, "nothing is reported for an address no entry covers"); REACH("not found"); }
}

void harness(void)
{
    VP_LOAD();
#if Q6
    { static const char d[4] = DIG; run(d, NULL); }
#else
    run(NULL, NULL);
#endif
}
