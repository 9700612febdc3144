/* entry point of a native replay */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
void harness(void);
void vp_assume_failed(const char *s){ fprintf(stderr, "replay: input is outside the precondition: %s\n", s); fflush(0); _exit(77); }
void vp_check_failed(const char *s){ fprintf(stderr, "replay: CHECK FAILED: %s\n", s); fflush(0); _exit(1); }
int main(void){ harness(); fflush(0); _exit(0); }
