// FLINT keeps big integers in pages that it allocates in bulk and reuses.
// That hides leaks, double frees and uses after free of fmpz's from
// AddressSanitizer.  Here every big fmpz gets an allocation of its own: the two
// functions of the FLINT shared library that manage the pool are redirected at
// startup.  (They are bound inside the library, so plain symbol interposition
// does not reach them.)  If that is not possible here, nothing is changed.
#include <dlfcn.h>
#include <flint/flint.h>
#include <flint/fmpz.h>
#include <gmp.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>

namespace {
mpz_ptr new_mpz(void) {
    mpz_ptr p = (mpz_ptr)malloc(sizeof(__mpz_struct));
    mpz_init2(p, 2 * FLINT_BITS);
    return p;
}
void clear_mpz(fmpz f) { mpz_ptr p = COEFF_TO_PTR(f); mpz_clear(p); free(p); }

bool redirect(void* from, void* to) {
#if defined(__x86_64__)
    uintptr_t page = (uintptr_t)sysconf(_SC_PAGESIZE);
    uintptr_t a = (uintptr_t)from & ~(page - 1), e = ((uintptr_t)from + 32 + page - 1) & ~(page - 1);
    if (mprotect((void*)a, e - a, PROT_READ | PROT_WRITE | PROT_EXEC)) return false;
    unsigned char code[16] = {0xf3, 0x0f, 0x1e, 0xfa, 0x48, 0xb8};      // endbr64; movabs rax, to; jmp rax
    memcpy(code + 6, &to, 8);
    code[14] = 0xff; code[15] = 0xe0;
    memcpy(from, code, 16);
    mprotect((void*)a, e - a, PROT_READ | PROT_EXEC);
    return true;
#else
    return false;
#endif
}
}
namespace pbt { bool fmpz_redirected = false; }
namespace {
__attribute__((constructor)) void install() {
    void* n = dlsym(RTLD_DEFAULT, "_fmpz_new_mpz");
    void* c = dlsym(RTLD_DEFAULT, "_fmpz_clear_mpz");
    if (!n || !c) return;
    // nothing big can be alive yet: this runs before main, and both or none are redirected
    unsigned char saved[16]; memcpy(saved, n, 16);
    if (!redirect(n, (void*)new_mpz)) return;
    if (!redirect(c, (void*)clear_mpz)) abort();
    pbt::fmpz_redirected = true;
}
}
