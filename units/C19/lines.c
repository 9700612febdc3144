/*UNIT
{"kind":"bounded","bound":"one reading from any text of up to 7 characters out of letter, space, #, ;, CR LF, with at most one blank line before; a buffer of 6 characters, the comment buffer scaled down to 4",
 "functions":["ReadLine","ReadLine_Continue","ReadLine_GoToNextLine","ReadLine_Inner","ClearAnnotation","ReachedLineEnd","EliminateCRLF","EliminateHeadSpace","EliminateFootSpace"],
 "variants":[{"name":"n3","defines":["N=3","CONT=0"]},{"name":"n4-skip","defines":["N=4","CONT=1","SKIP"]},{"name":"n5","defines":["N=5","CONT=0"]},{"name":"n7-cont","defines":["N=7","CONT=1"]},{"name":"n6","defines":["N=6","CONT=0"]},{"name":"n6-skip","defines":["N=6","CONT=1","SKIP"]}],
 "trusted":["fgets reads up to the end of a line or one less than the size it is given; feof is true after an attempt to read past the end"],
 "cbmc":["--unwind","9","--unwindset","ReadLine_Inner.0:4,ReadLine_Inner.1:3,ReadLine_Inner.2:3,fgets.0:7,vp_fgets.0:7,strlen.0:7,strchr.0:7,memmove.0:7,ClearAnnotation.0:7,EliminateHeadSpace.0:7,EliminateFootSpace.0:7","--max-field-sensitivity-array-size","600"],"cost":10,"timeout":200}
*/
/* A text is read line by line: of every line what stands before the first comment
   mark, without the space around it, lines with nothing left over; a line that is
   longer than the buffer in pieces, or skipped, without the lines around it. */
#include "vp.h"
#include <string.h>
#include <stdio.h>
#define VP_NO_LOCALE
static int vp_space(int c){ return c == ' ' || (c >= 9 && c <= 13); }
static char *vp_fgets(char *b, int n, FILE *f);
static int vp_feof(FILE *f);
#include <ctype.h>
#undef isspace
#define isspace vp_space
#undef fgets
#define fgets vp_fgets
#undef feof
#define feof vp_feof
#include "readline.c"
typedef struct { unsigned char t[N]; } IN;
VP_INPUTS(IN)
static int at, eof;
static char *vp_fgets(char *b, int n, FILE *f)
{
    int i = 0;
    if( n > 6 ) n = 4;      /* the buffer that comments go to, scaled down */
    while( i < n - 1 )
    {
        if( at >= N ){ eof = 1; break; }
        b[i++] = in.t[at++];
        if( b[i - 1] == '\n' ) break;
    }
    if( i == 0 ) return NULL;
    b[i] = '\0';
    return b;
}
static int vp_feof(FILE *f){ return eof; }

/* One reading from wherever the file is, at the start of a line or (CONT) in a line
   of which the part before did not fit.  What the readings of a file come to follows
   from what each of them does and where it leaves the file. */
void harness(void)
{
    static char want[N + 1];
    char b[6];
    ReadLineStatus s;
    int i, k, start = 0, end = 0, w = 0, comment = 0, plain = 0, found = 0, lines = 0;
    VP_LOAD();
    for( i = 0; i < N; i++ )
    {
        ASSUME(in.t[i] == 'a' || in.t[i] == ' ' || in.t[i] == '#' || in.t[i] == ';' || in.t[i] == '\n' || in.t[i] == '\r');
        ASSUME(in.t[i] != '\r' || (i + 1 < N && in.t[i + 1] == '\n'));
        if( in.t[i] == 'a' ) in.t[i] = 'a' + i;      /* tell them apart */
    }
    /* the first line with something on it, or the rest of this one */
    for( i = 0; i <= N && !found; i++ )
    {
        if( i == N || in.t[i] == '\n' )
        {
            while( w > 0 && vp_space((unsigned char)want[w - 1]) ) --w;
            ++lines;
            if( w > 0 || plain >= 5 || CONT ){ found = 1; end = i < N ? i + 1 : N; }
            else { start = i + 1; comment = 0; plain = 0; }
        } else {
            if( in.t[i] == '#' || in.t[i] == ';' ) comment = 1;
            if( !comment && in.t[i] != '\r' ) ++plain;
            if( !comment && (CONT || w > 0 || !vp_space(in.t[i])) ) want[w++] = in.t[i];
        }
    }
    ASSUME(lines <= 2);
    want[w] = '\0';
#ifdef SKIP
    ReadLine_GoToNextLine((FILE *)&at);
    CHECK(at == end || (at == end - 1 && in.t[end - 1] == '\n' && in.t[at - 1] == '\r'), "the rest of the line is skipped and nothing else");
    if( end < N ) REACH("skipped");
#else
    s = CONT ? ReadLine_Continue((FILE *)&at, b, 6) : ReadLine((FILE *)&at, b, 6);
    if( s == READ_FAILED_OR_END )
    {
        CHECK(!found, "the file is not at its end while there is a line left");
#if !CONT
        REACH("end");
#endif
    } else if( s == READ_DONE ) {
        CHECK(found, "a line is read that is there");
        CHECK(strlen(b) == (unsigned)w, "it has its own length");
        for( k = 0; k < 6; k++ ) if( k < w ) CHECK(b[k] == want[k], "it has its own text");
        CHECK(at == end || (at == end - 1 && in.t[end - 1] == '\n' && in.t[at - 1] == '\r'), "the next line follows");
        REACH("a line");
    } else {
        CHECK(s == READ_TRUNCATED && strlen(b) == 5, "only a line that does not fit is cut, where the buffer ends");
        CHECK(at == (CONT ? 0 : start) + 5 && plain >= 5, "the rest of it follows");
        for( k = 0; k < 5; k++ ) CHECK(b[k] == in.t[at - 5 + k] && b[k] != '#' && b[k] != ';', "it is as it stands in the file");
#if N > 5 && CONT < 2
        REACH("cut");
#endif
    }
#endif
}
