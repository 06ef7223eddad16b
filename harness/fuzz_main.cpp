// Coverage-guided search: libFuzzer mutates the bytes from which the choices
// of a case are drawn.  The choices of the running case are kept in the file
// PBT_REC, so that the engine can replay and shrink a case that failed.
#include "engine.hpp"
#include <cstdlib>
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

static pbt::FuzzRecord* R = nullptr;
static const char* prop = nullptr;

extern "C" int LLVMFuzzerInitialize(int*, char***) {
    prop = getenv("PBT_PROP"); const char* f = getenv("PBT_REC");
    if (!prop || !f) { fprintf(stderr, "PBT_PROP and PBT_REC are not set\n"); exit(4); }
    int fd = open(f, O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(pbt::FuzzRecord))) { perror(f); exit(4); }
    R = (pbt::FuzzRecord*)mmap(nullptr, sizeof(pbt::FuzzRecord), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (R == MAP_FAILED) { perror("mmap"); exit(4); }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    switch (pbt::run_bytes(prop, data, size, &R->rec)) {
    case 0: R->evals++; break;
    case 1: R->evals++; R->nontrivial++; break;
    case 2: return -1;               // discarded
    default: R->evals++; abort();
    }
    return 0;
}
