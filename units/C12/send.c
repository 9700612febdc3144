/*UNIT
{"kind":"proof",
 "functions":["MMgr_Send","ModuleFitRequest","MsgContext_IsFromTCP"],
 "link":["iheader.c"],
 "havoc":["StringChunk_Domain_Match_WildCardRandom"],
 "cbmc":["--unwind","6","--unwindset","harness.0:300"],
 "cost":10,"timeout":300,
 "trusted":["assumed contract: the domain rule lookup writes a stored group that the caller's predicate accepts, or reports no match (checked bounded under C08)","pthread_rwlock_* (stand-ins that count lock/unlock)"]}
*/
/* MMgr_Send against the contracts of its callees.  Filter_Out, Hosts_Get,
   DNSCache_FetchFromCache and a group's Send may return anything and only
   record that they ran. */
#include "vp.h"
#include <string.h>
#include "mmgr.c"

typedef struct {
    int filter, hosts, cache;       /* what each stage returns */
    _Bool matched; unsigned char which; int nmod;
    _Bool u2t, t2u, fromtcp, reqtcp;
    unsigned char id0, id1; int kind0, kind1; int sendret, len;
} IN;
VP_INPUTS(IN)

static struct { IHeader h; char e[64]; } msg;
static ModuleInterface mod0, mod1;
static ModuleInterface *slot[2];
static Array arr;
static ModuleMap map;
static int step, at_filter, at_hosts, at_cache, at_send, nsend, lock, lock_err;
static void *sent_to; static IHeader *sent_h; static int sent_len;

static int Send_rec(void *m, IHeader *h, int len)
{ at_send = ++step; nsend++; sent_to = m; sent_h = h; sent_len = len; if( lock != 1 ) lock_err = 1; return in.sendret; }

BOOL Filter_Out(MsgContext *c){ CHECK((void *)c == (void *)&msg, "the filter sees this query"); at_filter = ++step; return in.filter; }
int Hosts_Get(MsgContext *c, int n){ CHECK((void *)c == (void *)&msg && n == in.len, "the hosts stage sees this query"); at_hosts = ++step; return in.hosts; }
int DNSCache_FetchFromCache(MsgContext *c, int n){ CHECK((void *)c == (void *)&msg && n == in.len, "the cache stage sees this query"); at_cache = ++step; return in.cache; }
BOOL StringChunk_Domain_Match_WildCardRandom(StringChunk *dl, const char *Domain, const uint32_t *Hash, void **Data, DataCompare cb, void *Exp)
{
    CHECK(Domain == msg.h.Domain && Hash == &msg.h.HashValue, "the rules are searched for the asked name");
    if( !in.matched ) { *Data = NULL; return FALSE; }
    ModuleInterface **d = &slot[in.which & 1];
    /* contract: the predicate accepts what is returned */
    ASSUME(cb == NULL || cb((const void **)d, Exp));
    *Data = d;
    return TRUE;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l){ lock++; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l){ lock++; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l){ lock--; return 0; }

void harness(void)
{
    int r;
    VP_LOAD();
    ASSUME(in.nmod >= 0 && in.nmod <= 2);
    slot[0] = &mod0; slot[1] = &mod1;
    mod0.ModuleName = in.kind0 ? "TCP" : "UDP";
    mod1.ModuleName = in.kind1 ? "TCP" : "UDP";
    mod0.Send = Send_rec; mod1.Send = Send_rec;
    arr.Data = (char *)slot; arr.DataLength = sizeof(slot[0]); arr.Used = in.nmod; arr.Allocated = 2;
    map.ModuleArray = &arr;
    CurModuleMap = &map;
    EnableUDPtoTCP = in.u2t; EnableTCPtoUDP = in.t2u;
    memset(&msg, 0, sizeof(msg));
    msg.h.BackAddress.family = in.fromtcp ? AF_UNSPEC : AF_INET;
    msg.h.RequestTcp = in.reqtcp;
    msg.e[0] = in.id0; msg.e[1] = in.id1;

    r = MMgr_Send((const char *)&msg, in.len);

    CHECK(lock == 0 && !lock_err, "the group table is locked while in use and never left locked");
    CHECK(at_filter == 1, "the filter judges the query first, once");
    if( in.filter ) {
        CHECK(at_hosts == 0 && at_cache == 0 && nsend == 0, "a refused query reaches no other stage");
        REACH("refused");
    } else if( in.hosts == 0 ) {
        CHECK(at_hosts == 2 && at_cache == 0 && nsend == 0, "a query answered from hosts reaches neither cache nor upstream");
        REACH("hosts");
    } else if( in.cache == 0 ) {
        CHECK(at_hosts == 2 && at_cache == 3 && nsend == 0, "a query answered from the cache is not sent upstream");
        REACH("cache");
    } else {
        CHECK(at_hosts == 2 && at_cache == 3, "hosts, then cache, are consulted before upstream");
        if( in.matched || in.nmod > 0 ) {
            ModuleInterface *m = sent_to == (void *)&mod0 ? &mod0 : &mod1;
            CHECK(nsend == 1 && at_send == 4, "the query is handed to exactly one group");
            CHECK(sent_to == (void *)&mod0 || sent_to == (void *)&mod1, "it is a configured group");
            CHECK(sent_h == &msg.h && sent_len == in.len, "the group gets this query");
            CHECK(r == in.sendret, "the outcome of sending is reported");
            if( in.matched ) {
                int tcpq = in.fromtcp || in.reqtcp;
                CHECK(sent_to == (void *)slot[in.which & 1], "it is the group the rules name");
                CHECK(!(tcpq && !in.t2u && strcmp(m->ModuleName, "UDP") == 0), "a rule never routes a TCP query to a UDP group unless enabled");
                CHECK(!(!tcpq && !in.u2t && strcmp(m->ModuleName, "TCP") == 0), "a rule never routes a UDP query to a TCP group unless enabled");
                REACH("matched");
            } else {
                CHECK(sent_to != (void *)&mod1 || in.nmod == 2, "it is a configured group");
                REACH("fallback");
            }
        } else {
            CHECK(nsend == 0 && r != 0, "with no group at all the query fails");
            REACH("none");
        }
    }
}
/* both directions of the predicate: what the rules may return is exactly what
   the protocol switches allow */
