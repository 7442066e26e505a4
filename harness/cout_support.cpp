// Storage of std::cout and std::cerr; the harness constructs a stream in it.
extern char cout_store[512] __asm__("_ZSt4cout"), cerr_store[512] __asm__("_ZSt4cerr");
char cout_store[512] __attribute__((aligned(16))), cerr_store[512] __attribute__((aligned(16)));
