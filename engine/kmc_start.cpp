extern "C" int kmc_main(int, char **, char *, char *, char *, char *, char *);
extern "C" { extern char __data_start[], _end[], __executable_start[]; }
extern "C" { extern char __start_kmcghost[] __attribute__((weak)), __stop_kmcghost[] __attribute__((weak)); }
int main(int argc, char **argv) { return kmc_main(argc, argv, __data_start, _end, __start_kmcghost, __stop_kmcghost, __executable_start); }
