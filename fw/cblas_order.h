#include <cblas.h>
#define AA_CBLAS_ORDER CBLAS_LAYOUT
#define AA_CBLAS_TRANSPOSE CBLAS_TRANSPOSE
