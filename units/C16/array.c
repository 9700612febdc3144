/*UNIT
{"kind":"bounded","bound":"arrays of up to 6 elements of 12 octets (any content), at every fill level at which growing makes a difference; one operation from each",
 "functions":["Array_Init","Array_PushBack","Array_SetToSubscript","Array_GetBySubscript","Array_GetNext","Array_Free"],
 "variants":[{"name":"init0","defines":["CAP=0","U=0","OP=0"]},{"name":"push0","defines":["CAP=0","U=0","OP=1"]},{"name":"push1full","defines":["CAP=1","U=1","OP=1"]},{"name":"push2","defines":["CAP=2","U=1","OP=1"]},{"name":"push2full","defines":["CAP=2","U=2","OP=1"]},{"name":"push3full","defines":["CAP=3","U=3","OP=1"]},{"name":"push6full","defines":["CAP=6","U=6","OP=1"]},
  {"name":"set0","defines":["CAP=0","U=0","OP=2"]},{"name":"set3","defines":["CAP=3","U=2","OP=2"]},{"name":"set1full","defines":["CAP=1","U=1","OP=2"]},{"name":"down0","defines":["CAP=4","U=0","OP=3"]},{"name":"down3","defines":["CAP=4","U=3","OP=3"]},{"name":"down4","defines":["CAP=4","U=4","OP=3"]}],
 "link":["array.c"],"havoc":["SafeRealloc"],
 "trusted":["realloc: fails and changes nothing, or gives a block with the old content"],
 "cbmc":["--unwind","16","--unwindset","memcpy.0:80,memset.0:80,SafeRealloc.0:80,harness.0:80,harness.1:80"],"cost":2,"timeout":200}
*/
/* A growing array keeps the elements it has, where they are expected. */
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include "array.h"
typedef struct { unsigned char e[6][12], d[12]; unsigned char s; _Bool fail, bound; } IN;
VP_INPUTS(IN)
#define L 12
static int reallocs, failed;
int SafeRealloc(void **p, size_t n)
{
    unsigned char *q; size_t i;
    reallocs++;
    if( in.fail ){ failed = 1; return -1; }
    q = malloc(n);
    ASSUME(q != NULL);
    for( i = 0; i < CAP * L; i++ ) if( i < n ) q[i] = ((unsigned char *)*p)[i];
    free(*p);
    *p = q;
    return 0;
}
void harness(void)
{
    Array a; int i, k, r = 0; unsigned char *p;
    VP_LOAD();
#if OP == 0
    CHECK(Array_Init(&a, L, -1, FALSE, NULL) != 0, "no array of less than nothing");
    CHECK(Array_Init(&a, L, 0, FALSE, NULL) == 0 && Array_GetUsed(&a) == 0, "an array starts empty");
    CHECK(Array_GetBySubscript(&a, 0) == NULL && Array_GetNext(&a, NULL) == NULL, "and has nothing in it");
    Array_Free(&a);
    CHECK(Array_Init(&a, L, 2, FALSE, NULL) == 0 && Array_GetUsed(&a) == 0, "with or without room");
    CHECK(Array_PushBack(&a, in.d, NULL) == 0, "an element is added");
    p = Array_GetBySubscript(&a, 0);
    CHECK(p != NULL && memcmp(p, in.d, L) == 0 && reallocs == 0, "and found");
    Array_Free(&a);
    CHECK(Array_GetUsed(&a) == 0 && Array_GetBySubscript(&a, 0) == NULL, "a freed array is empty");
    REACH("empty");
#elif OP == 3
    {
        static unsigned char below[(CAP + 2) * L]; unsigned char *room = below + 2 * L;
        Array_Init(&a, L, 0, TRUE, room + (CAP - 1) * L);
        a.Used = U;
        for( i = 0; i < U; i++ ) for( k = 0; k < L; k++ ) room[(CAP - 1 - i) * L + k] = in.e[i][k];
        r = Array_PushBack(&a, in.d, room);
        if( U == CAP ) { CHECK(r < 0 && Array_GetUsed(&a) == U, "an array that grows down stops at its boundary");
#if U == CAP
            REACH("at the boundary");
#endif
        }
        else
        {
            CHECK(r == U && Array_GetUsed(&a) == U + 1, "an element is added");
            p = Array_GetBySubscript(&a, U);
            CHECK(p == room + (CAP - 1 - U) * L && memcmp(p, in.d, L) == 0, "below the others");
#if U < CAP
            REACH("added below");
#endif
        }
        for( i = 0; i < U; i++ )
        {
            p = Array_GetBySubscript(&a, i);
            CHECK(p == room + (CAP - 1 - i) * L && memcmp(p, in.e[i], L) == 0, "an element stays what and where it is");
        }
    }
#else
    a.DataLength = L; a.Used = U; a.Allocated = CAP; a.Data = NULL;
    if( CAP ){ a.Data = malloc(CAP * L); ASSUME(a.Data != NULL); }
    for( i = 0; i < U; i++ ) for( k = 0; k < L; k++ ) ((unsigned char *)a.Data)[i * L + k] = in.e[i][k];
#if OP == 1
    in.s = U;
    r = Array_PushBack(&a, in.d, NULL);
    CHECK(r == (failed ? -1 : U), "the subscript of a new element is the next one");
#else
    ASSUME(in.s <= U + 1);
    p = Array_SetToSubscript(&a, in.s, in.d);
    CHECK((p == NULL) == failed, "an element is set unless memory is short");
    if( p ) CHECK(p == Array_GetBySubscript(&a, in.s), "and its place is told");
#endif
    CHECK(failed <= reallocs && reallocs == ((OP == 1 ? U : in.s) >= CAP ? 1 : 0), "it grows when it is full and only then");
    CHECK(Array_GetUsed(&a) == (failed || in.s < U ? U : in.s + 1), "the number of elements is right");
    CHECK(a.Allocated >= Array_GetUsed(&a), "there is room for all");
    for( i = 0; i < U; i++ ) if( failed || i != in.s )
    {
        p = Array_GetBySubscript(&a, i);
        CHECK(p != NULL && memcmp(p, in.e[i], L) == 0, "an element stays what it is");
    }
    if( !failed )
    {
        p = Array_GetBySubscript(&a, in.s);
        CHECK(p != NULL && memcmp(p, in.d, L) == 0, "the new one is what was given");
        REACH("added");
    }
    CHECK(Array_GetBySubscript(&a, -1) == NULL && Array_GetBySubscript(&a, Array_GetUsed(&a)) == NULL, "there is nothing besides");
    for( p = NULL, k = 0; k <= CAP + 2 && (p = Array_GetNext(&a, p)) != NULL; k++ ) CHECK(p == Array_GetBySubscript(&a, k), "elements are gone through in order");
    CHECK(k == Array_GetUsed(&a), "all of them");
    Array_Free(&a);
#endif
}
