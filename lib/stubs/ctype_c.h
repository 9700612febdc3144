/* the character classes of the C locale, as far as isspace, isdigit, isxdigit, isalpha, isalnum go */
#ifndef CTYPE_C_H
#define CTYPE_C_H
#include <ctype.h>
#define CC_SP _ISspace
#define CC_DG (_ISdigit | _ISxdigit | _ISalnum | _ISgraph | _ISprint)
#define CC_UP (_ISupper | _ISalpha | _ISalnum | _ISgraph | _ISprint)
#define CC_LO (_ISlower | _ISalpha | _ISalnum | _ISgraph | _ISprint)
#define CC_UX (CC_UP | _ISxdigit)
#define CC_LX (CC_LO | _ISxdigit)
/* (one initialiser per character: ranges are not understood by every front end) */
static const unsigned short ctype_tab[384] = {
    [137] = CC_SP, [138] = CC_SP, [139] = CC_SP, [140] = CC_SP, [141] = CC_SP, [160] = CC_SP,
    [176] = CC_DG, CC_DG, CC_DG, CC_DG, CC_DG, CC_DG, CC_DG, CC_DG, CC_DG, CC_DG,
    [193] = CC_UX, CC_UX, CC_UX, CC_UX, CC_UX, CC_UX, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP,
            CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP, CC_UP,
    [225] = CC_LX, CC_LX, CC_LX, CC_LX, CC_LX, CC_LX, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO,
            CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO, CC_LO };
static const unsigned short *ctype_ptr = ctype_tab + 128;
const unsigned short **__ctype_b_loc(void){ return &ctype_ptr; }
#endif
