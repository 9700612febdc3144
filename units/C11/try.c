/*UNIT
{"kind":"bounded","bound":"a recursed answer of up to 3 records (any kinds, any sections); everything else unbounded",
 "functions":["HostsUtils_Try","HostsUtils_Generate","HostsUtils_TypeExisting","HostsUtils_GetCName","HostsUtils_GetCName_Callback","HostsUtils_CombineRecursedResponse","HostsUtils_GenerateQuery"],
 "link":[],"havoc":["DnsSimpleParser_Init","DnsSimpleParserIterator_Init","DnsGenerator_Init","DNSCompress","MsgContext_SendBack","GoodIpList_Get","IHeader_Fill"],
 "variants":[{"name":"answer","defines":["ANSWER"]},{"name":"combine","defines":["COMBINE"]},{"name":"query","defines":["QUERY"]}],
 "cbmc":["--unwind","8","--unwindset","memcmp.0:20,memmove.0:40,strcpy.0:10,strcmp.0:10,harness.0:24,harness.1:24,DnsGenerator_Init.0:14,MsgContext_SendBack.0:24","--max-field-sensitivity-array-size","600"],"cost":4,"timeout":200,
 "trusted":["assumed contracts: parser (C01, C02), message generator (C17), container (unit container)"]}
*/
/* What is answered from hosts entries, and with what. */
#include "vp.h"
#include <string.h>
#include "hostsutils.c"
typedef struct {
    int type; unsigned char have, cbstop; _Bool edns, tcp_, initfail, nextfail, genfail, ednsfail, compfail, sendfail, nolist, pfail, ifail, qfail, fillfail;
    unsigned char a[4], aaaa[16], gip[4]; uint16_t id, newid;
    struct { unsigned char p; int type; } r[3]; unsigned char n, failat;
} IN;
VP_INPUTS(IN)
static struct { IHeader h; char e[96]; } msg;
static HostsContainer hc;
static DNSHeader hdr;
static IpAddr da, d6; static char dcn[8] = "cn.x", dl[8] = "list";
#define HAS(t) ((in.have & (t)) != 0)
static const void *h_find(HostsContainer *c, const char *name, HostsRecordType t, HostsFindFunc f, void *arg)
{
    const void *d;
    CHECK(c == &hc && name == msg.h.Domain, "looked up in this container under the asked name");
    if( !HAS(t) ) return NULL;
    d = t == HOSTS_TYPE_A ? (void *)&da : t == HOSTS_TYPE_AAAA ? (void *)&d6 : t == HOSTS_TYPE_CNAME ? (void *)dcn : (void *)dl;
    if( f != NULL && f(1, t, d, arg) != 0 ) return NULL;
    return &hc;
}
const char *GoodIpList_Get(const char *n){ CHECK(n == dl, "the list that is named"); return in.nolist ? NULL : (char *)in.gip; }
/* generator */
static int purpose, ngen, nedns, ncname, lenasked, ncopy, copied[3], nq, idset, hcopied, cnfail;
static const char *want_cn;
static DnsRecordPurpose g_next(DnsGenerator *g)
{
    if( in.nextfail ) return DNS_RECORD_PURPOSE_UNKNOWN;
    if( purpose < 4 ) purpose++;
    return purpose == 2 ? DNS_RECORD_PURPOSE_ANSWER : purpose == 3 ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL;
}
static int g_cname(DnsGenerator *g, const char *name, const char *cname, int ttl)
{
    CHECK(purpose == 2, "into the answer section");
#ifdef COMBINE
    CHECK(name == msg.h.Domain && cname == want_cn && ncopy == 0, "first the alias, of the asked name to where it leads");
#else
    CHECK(in.type == DNS_TYPE_CNAME && cname == dcn && strcmp(name, "a") == 0, "the entry's alias");
#endif
    if( in.genfail ) return -1;
    ncname++; return 0;
}
static int g_raw(DnsGenerator *g, const char *name, DNSRecordType t, DNSRecordClass k, const char *data, int len, int ttl)
{
    CHECK(purpose == 2 && k == DNS_CLASS_IN && strcmp(name, "a") == 0, "into the answer section, under the asked name");
    CHECK((int)t == in.type, "a record of the asked type");
    if( t == DNS_TYPE_A ) CHECK(len == 4 && memcmp(data, HAS(HOSTS_TYPE_A) ? in.a : in.gip, 4) == 0, "the entry's IPv4 address, else the best of the list");
    else CHECK(len == 16 && memcmp(data, in.aaaa, 16) == 0, "the entry's IPv6 address");
    if( in.genfail ) return -1;
    ngen++; return 0;
}
static int g_edns(DnsGenerator *g, int s){ CHECK(purpose == 4, "EDNS goes to the additional section"); if( in.ednsfail ) return -1; nedns++; return 0; }
static int g_len(const DnsGenerator *g){ return 33; }
static void g_id(DnsGenerator *g, uint16_t v){ idset = v; }
static void g_hdr(DnsGenerator *g, const char *src, BOOL counts);
static int g_question(DnsGenerator *g, const char *n, DNSRecordType t, DNSRecordClass k);
static int g_copy(DnsGenerator *g, DnsSimpleParserIterator *i, int t);
static int g_ccn(DnsGenerator *g, DnsSimpleParserIterator *i){ return g_copy(g, i, DNS_TYPE_CNAME); }
static int g_ca(DnsGenerator *g, DnsSimpleParserIterator *i){ return g_copy(g, i, DNS_TYPE_A); }
static int g_c6(DnsGenerator *g, DnsSimpleParserIterator *i){ return g_copy(g, i, DNS_TYPE_AAAA); }
int DnsGenerator_Init(DnsGenerator *g, char *b, int n, const char *src, int sl, BOOL strip)
{
#ifdef ANSWER
    CHECK(b == msg.e + 16 && n == 96 - 16 && src == msg.e && sl == 16 && strip, "the answer is built from the question, behind it, inside the buffer");
    purpose = 1;
#elif defined(COMBINE)
    CHECK(b == msg.e && n == 96 && src == NULL, "the answer is built inside the buffer");
    purpose = 1;
#else
    int i;
    CHECK(b == msg.e && n == 96 && sl == DNS_HEADER_LENGTH && src != NULL, "the query is built inside the buffer");
    for( i = 0; i < DNS_HEADER_LENGTH; ++i ) CHECK(src[i] == (i == 2), "a plain query wanting recursion");
#endif
    if( in.initfail ) return -1;
    g->Buffer = b; g->Header = &hdr; g->NextPurpose = g_next; g->CName = g_cname; g->RawData = g_raw; g->EDns = g_edns; g->Length = g_len;
    g->SetIdentifier = g_id; g->CopyHeader = g_hdr; g->Question = g_question; g->CopyCName = g_ccn; g->CopyA = g_ca; g->CopyAAAA = g_c6;
    return 0;
}
int DNSCompress(char *b, int n)
{
#ifdef ANSWER
    CHECK(b == msg.e + 16 && n == 33, "the built answer is packed");
#else
    CHECK(b == msg.e && n == 33, "the built answer is packed");
#endif
    return in.compfail ? -1 : 20;
}
static int nsent;
int MsgContext_SendBack(MsgContext *c)
{
    int i;
    CHECK((void *)c == (void *)&msg && msg.h.EntityLength == 20, "the answer goes to the asker, at its length");
    for( i = 0; i < 20; ++i ) CHECK(msg.e[i] == (char)(100 + i), "what was built is what is sent");
    nsent++; return in.sendfail ? -1 : 0;
}
/* parser of the recursed answer */
static char rentity[64]; static int pos;
int DnsSimpleParser_Init(DnsSimpleParser *p, char *raw, int len, BOOL tcp){ CHECK(raw == rentity && len == 50 && !tcp, "the recursed answer is read"); return in.pfail ? -1 : 0; }
static void p_goto(DnsSimpleParserIterator *i){ pos = 0; }
static char *p_next(DnsSimpleParserIterator *i)
{
    if( pos >= in.n ) return NULL;
    i->Purpose = in.r[pos].p == 0 ? DNS_RECORD_PURPOSE_ANSWER : in.r[pos].p == 1 ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL;
    i->Type = in.r[pos].type; pos++;
    return rentity;
}
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p){ pos = 99; i->Next = p_next; i->GotoAnswers = p_goto; return in.ifail ? -1 : 0; }
static void g_hdr(DnsGenerator *g, const char *src, BOOL counts){ CHECK(src == rentity && !counts, "flags as in the recursed answer, counts counted anew"); hcopied = 1; idset = -1; }
static int g_question(DnsGenerator *g, const char *n, DNSRecordType t, DNSRecordClass k)
{
#ifdef COMBINE
    CHECK(n == msg.h.Domain && (int)t == in.type && k == DNS_CLASS_IN && hcopied, "the question is the asked one");
#else
    CHECK(n == want_cn && (int)t == in.type && k == DNS_CLASS_IN, "the question is for where the alias leads, of the asked type");
#endif
    nq++; return in.qfail ? -1 : 0;
}
static int g_copy(DnsGenerator *g, DnsSimpleParserIterator *i, int t)
{
    CHECK(purpose == 2 && ncname == 1 && i->Type == t, "records follow the alias, each by its kind");
    if( in.failat == pos - 1 ) { cnfail = 1; return -1; }
    CHECK(ncopy < 3, "each record once");
    copied[ncopy++] = pos - 1;
    return 0;
}
static Address_Type back;
int IHeader_Fill(IHeader *h, BOOL rh, char *e, int len, const struct sockaddr *b, SOCKET s, sa_family_t f, const char *agent)
{
    CHECK(h == &msg.h && rh && e == msg.e && len == 33 && b == (struct sockaddr *)&back.Addr && s == 7 && f == back.family, "the answer will come back here");
    return in.fillfail ? -1 : 0;
}
int harness(void)
{
    int i;
    VP_LOAD();
    hc.Find = h_find;
    memset(da.Addr, 0, 16); memcpy(da.Addr + 12, in.a, 4); memcpy(d6.Addr, in.aaaa, 16);
    strcpy(msg.h.Domain, "q.x"); msg.h.Type = in.type; msg.h.EDNSEnabled = in.edns != 0; msg.h.EntityLength = 16;
    {
#ifdef ANSWER
    char cn[16] = "";
    HostsUtilsTryResult r; int T, hit;
    for( i = 0; i < 20; ++i ) msg.e[16 + i] = 100 + i;
    r = HostsUtils_Try((MsgContext *)&msg, sizeof(msg), &hc);
    if( in.type != DNS_TYPE_CNAME && HAS(HOSTS_TYPE_CNAME) )
    {
        CHECK(r == HOSTSUTILS_TRY_RECURSED && nsent == 0 && msg.h.EntityLength == 16, "an alias is followed, the query untouched");
        REACH("alias");
    } else {
        T = in.type == DNS_TYPE_CNAME ? HOSTS_TYPE_CNAME : in.type == DNS_TYPE_AAAA ? HOSTS_TYPE_AAAA : in.type == DNS_TYPE_A ? (HAS(HOSTS_TYPE_A) ? HOSTS_TYPE_A : HOSTS_TYPE_GOOD_IP_LIST) : 0;
        hit = T != 0 && HAS(T);
        if( hit && !in.initfail && !in.nextfail && !in.genfail && !(in.edns && in.ednsfail) && !in.compfail && !(T == HOSTS_TYPE_GOOD_IP_LIST && in.nolist) )
        {
            CHECK(r == HOSTSUTILS_TRY_OK && nsent == 1, "a matching entry is answered");
            CHECK(ngen + ncname == 1 && nedns == (in.edns != 0), "with the one record, and EDNS if asked with it");
            CHECK(hdr.Flags.Direction == 1 && hdr.Flags.RecursionAvailable == 1 && hdr.Flags.ResponseCode == 0 && hdr.Flags.Type == 0, "as a successful answer");
            REACH("answered");
        } else {
            CHECK(r == HOSTSUTILS_TRY_NONE && nsent == 0, "otherwise nothing is sent and the query goes on");
            CHECK(msg.h.EntityLength == 16, "the query is kept");
            REACH("not answered");
        }
    }
    CHECK((HostsUtils_GetCName(msg.h.Domain, cn, &hc) == 0) == HAS(HOSTS_TYPE_CNAME), "the alias is given exactly when there is one");
    CHECK(!HAS(HOSTS_TYPE_CNAME) || strcmp(cn, "cn.x") == 0, "the alias is the entry's");
#elif defined(COMBINE)
    int ret, fail, k = 0; char rd[8] = "r.d";
    ASSUME(in.n <= 3);
    want_cn = rd;
    *(uint16_t *)msg.e = in.id;
    ret = HostsUtils_CombineRecursedResponse((MsgContext *)&msg, sizeof(msg), rentity, 50, rd);
    fail = in.pfail || in.ifail || in.initfail || in.qfail || in.nextfail || in.genfail || cnfail || (in.edns && in.ednsfail) || in.compfail;
    CHECK((ret == 0) == !fail, "success exactly when every part could be built");
    if( ret == 0 )
    {
        CHECK(nq == 1 && ncname == 1 && hcopied && nedns == (in.edns != 0), "question, alias, EDNS as asked");
        CHECK((uint16_t)idset == DNSGetQueryIdentifier((char *)&in.id), "the asker's identifier");
        for( i = 0; i < 3 && i < in.n && in.r[i].p == 0; ++i )
            if( in.r[i].type == DNS_TYPE_CNAME || in.r[i].type == DNS_TYPE_A || in.r[i].type == DNS_TYPE_AAAA )
            { CHECK(k < ncopy && copied[k] == i, "every alias and address of the recursed answer, in order"); k++; }
        CHECK(k == ncopy, "and nothing else");
        CHECK(msg.h.EntityLength == 20, "the answer's length");
        REACH("combined");
    } else REACH("not combined");
#else
    int ret; char q[8] = "q.r";
    want_cn = q; back.family = (in.tcp_ ? 1 : 0) ? AF_INET6 : AF_INET;
    ret = HostsUtils_GenerateQuery((char *)&msg, sizeof(msg), 7, &back, (in.tcp_ ? 1 : 0), in.newid, q, in.type);
    CHECK((ret == 0) == !(in.initfail || in.qfail || in.fillfail), "success exactly when the query could be built");
    if( ret == 0 ) { CHECK(nq == 1 && idset == in.newid && msg.h.RequestTcp == (in.tcp_ ? 1 : 0), "one question, the given identifier, the asker's transport"); REACH("query"); }
#endif
    }
    return 0;
}
