/*UNIT
{"kind":"bounded","bound":"answers of up to 4 records; any types, classes, lengths, response codes and data; any set of rules",
 "functions":["IPMisc_Process","IPMiscMapping_Process","IPMisc_SetBlockNegative"],
 "link":[],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","IpChunk_Find","IpChunk_Init","IpChunk_Add","IpChunk_Free","Log_Print","Log_DebugOn"],
 "cbmc":["--unwind","130","--max-field-sensitivity-array-size","600"],"cost":5,"timeout":200,
 "trusted":["assumed contracts: parser (C01, C02), address set (C10)","rwlock"]}
*/
/* Answers that carry a blocked address, or a negative result where those are
   blocked, are withheld; substituted addresses replace the original in place;
   nothing else in the answer changes. */
#include "vp.h"
#include <string.h>
#include "ipmisc.c"
typedef struct {
    unsigned char sel; _Bool neg, bad, badit; unsigned char rcode;
    struct { unsigned short klass; unsigned char rule; char d[16]; } r[4]; char sub[4][16];
} IN;
VP_INPUTS(IN)
static struct { IHeader h; char e[12 + 4 * 18 + 20]; } msg;
static int depth, nrec, npos, ended, c_type[4], c_len[4], c_purpose[4], matches_only = 1;
static IPMisc M;
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ CHECK(0, "checking an answer takes the shared lock"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ depth++; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ depth--; return 0; }
void Log_Print(const char *t, const char *f, ...){ }
BOOL Log_DebugOn(void){ return FALSE; }
#define POS(i) (msg.e + 12 + 18 * (i) + 1)
static ResponseCode it_rcode(const DnsSimpleParser *p){ return in.rcode; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp)
{
    CHECK(raw == msg.e && len == msg.h.EntityLength && !tcp, "this answer is read");
    p->_Flags.ResponseCode = (void *)it_rcode;
    return in.bad ? -1 : 0;
}
static int gone;
static void it_goto(DnsSimpleParserIterator *i){ CHECK(npos == -1, "from the start"); gone = 1; }
static char *it_next(DnsSimpleParserIterator *i)
{
    CHECK(gone, "the question is skipped");
    if( npos + 1 >= nrec ) return NULL;
    npos++;
    i->Purpose = c_purpose[npos]; i->Type = c_type[npos]; i->Klass = in.r[npos].klass; i->DataLength = c_len[npos];
    return POS(npos);
}
static char *it_data(DnsSimpleParserIterator *i){ return POS(npos); }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
{
    npos = -1; i->Next = it_next; i->GotoAnswers = it_goto; i->RowData = it_data;
    return in.badit ? -1 : 0;
}
/* rule: 0 none, 1 blocked, 2 substituted, 3: present without an action */
int IpChunk_Init(IpChunk *c){ return 0; }
void IpChunk_Free(IpChunk *c){ }
int IpChunk_Add(IpChunk *c, const char *ip, int type, const void *d, uint32_t l){ return 0; }
BOOL IpChunk_Find(IpChunk *c, unsigned char *ip, int n, int *type, const char **data)
{
    CHECK(c == &M.c, "the configured rules");
    CHECK(npos >= 0 && c_purpose[npos] == DNS_RECORD_PURPOSE_ANSWER && ip == (unsigned char *)POS(npos), "an answer's address is looked up");
    CHECK((c_type[npos] == 1 && n == 4) || (c_type[npos] == 28 && n == 16), "at the length of its family");
    CHECK(c_len[npos] == n, "an address outside the record is not looked at");
    if( in.r[npos].rule == 0 ) return FALSE;
    *type = in.r[npos].rule == 1 ? IP_MISC_TYPE_BLOCK : in.r[npos].rule == 2 ? IP_MISC_TYPE_SUBSTITUTE : IP_MISC_TYPE_UNKNOWN;
    if( data != NULL ) *data = in.sub[npos];
    return TRUE;
}
static void rec(int i, int purpose, int type, int len){ c_purpose[i] = purpose; c_type[i] = type; c_len[i] = len; memcpy(POS(i), in.r[i].d, 16); }
#define A DNS_RECORD_PURPOSE_ANSWER
#define N DNS_RECORD_PURPOSE_NAME_SERVER
static void run(int n)
{
    int r, i, k, blocked = -1; char before[sizeof(msg.e)];
    nrec = n; npos = -1;
    memcpy(before, msg.e, sizeof(before));
    r = IPMiscMapping_Process((MsgContext *)&msg);
    CHECK(depth == 0, "no lock stays held");
    if( CurrIpMiscMapping == NULL ) { CHECK(r == IP_MISC_NOTHING && memcmp(before, msg.e, sizeof(before)) == 0, "without rules nothing happens"); REACH("none"); return; }
    for( i = 0; i < n && blocked < 0; ++i )
    {
        int len = c_type[i] == 1 ? 4 : c_type[i] == 28 ? 16 : -1;
        if( c_purpose[i] != A ) break;
        if( len < 0 || in.r[i].klass != DNS_CLASS_IN || c_len[i] != len ) continue;
        if( in.r[i].rule == 1 ) blocked = i;
        else if( in.r[i].rule == 2 && !in.bad && !in.badit && !(in.neg && in.rcode != 0) ) memcpy(before + (POS(i) - msg.e), in.sub[i], len);
    }
    if( in.bad ) { CHECK(r == IP_MISC_NOTHING, "what can not be read is not judged"); }
    else if( in.neg && in.rcode != RESPONSE_CODE_NO_ERROR ) { CHECK(r == IP_MISC_NEGATIVE_RESULT, "a negative answer is withheld where configured"); REACH("negative"); }
    else if( in.badit ) { CHECK(r == IP_MISC_NOTHING, "what can not be read is not judged"); }
    else if( blocked >= 0 ) { CHECK(r == IP_MISC_FILTERED_IP, "an answer with a blocked address is withheld"); REACH("blocked"); }
    else CHECK(r == IP_MISC_NOTHING, "any other answer passes");
    for( k = 0; k < sizeof(before); ++k ) CHECK(msg.e[k] == before[k], "substituted addresses are replaced in place, nothing else changes");
    REACH("done");
}
void harness(void)
{
    VP_LOAD();
    IPMisc_Init(&M);
    M.SetBlockNegative(&M, in.neg ? TRUE : FALSE);
    CurrIpMiscMapping = &M;
    msg.h.EntityLength = sizeof(msg.e);
    switch( in.sel )
    {
    case 0: rec(0, A, 1, 4); rec(1, A, 28, 16); rec(2, A, 1, 4); rec(3, N, 1, 4); run(4); break;
    case 1: rec(0, A, 5, 8); rec(1, A, 1, 4); run(2); break;
    case 2: rec(0, A, 28, 16); rec(1, A, 65, 12); rec(2, A, 28, 16); run(3); break;
    case 3: run(0); break;
    case 4: rec(0, N, 2, 8); rec(1, N, 1, 4); run(2); break;
    case 5: rec(0, A, 1, 0); rec(1, A, 1, 4); run(2); break;
    case 6: rec(0, A, 28, 4); rec(1, A, 28, 16); run(2); break;
    case 7: rec(0, A, 1, 16); run(1); break;
    case 8: rec(0, A, 1, 4); CurrIpMiscMapping = NULL; run(1); break;
    default: rec(0, A, 1, 4); rec(1, A, 1, 4); rec(2, A, 5, 4); rec(3, A, 28, 16); run(4); break;
    }
}
