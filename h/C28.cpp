/* C28: C11 in the build with -DENABLE_KSSL_BIO (TLS through memory buffers, as io_uring and Windows builds do) */
// CFG: #define ENABLE_KSSL_BIO
#include "C11.cpp"
