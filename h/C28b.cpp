/* C28: how a TLS connection ends (the TLS scenarios of C13) in the build with -DENABLE_KSSL_BIO */
// CFG: #define ENABLE_KSSL_BIO
#define TLS_ONLY
#include "C13.cpp"
