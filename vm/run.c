/* Host of the toolchain checks: runs an image, prints what its system calls report.
 *   run image [argument...]        prints "ret N" or "error CODE" at the end
 * system calls: -1 int, -2 float (bits), -3 string, -4 two ints; arguments are otherwise ignored */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
/* compiled with -DNATIVE: the same system calls as functions, to be linked with the program under test compiled for the host
 * lines after the first 600 are folded into a hash; the output ends after 4000000 */
static int lines; static unsigned long long hash = 14695981039346656037ull;
static void done(const char* what, int n) { if (lines > 600) printf("more %d %016llx\n", lines - 600, hash); printf("%s %d\n", what, n); fflush(stdout); }
static int emit(const char* s, int v)
{
    if (++lines > 4000000) { done("too much output", 0); exit(9); }
    if (lines <= 600) printf("%s\n", s);
    else while (*s) hash = (hash ^ (unsigned char)*s++) * 1099511628211ull;
    return (int)((unsigned)v * 3u + 1u);
}
static int num(const char* k, int a) { char b[64]; sprintf(b, "%s %d", k, a); return emit(b, a); }
int out(int a) { return num("i", a); }
int outf_(unsigned u) { char b[64]; if ((u & 0x7f800000) == 0x7f800000 && (u & 0x7fffff)) u = 0x7fc00000; sprintf(b, "f %08x", u); return emit(b, 0); }
int outs(const char* p) { static char b[5000]; const unsigned char* s = (const unsigned char*)p; int n = sprintf(b, "s "); for (; s && *s && n < 4900; s++) if (*s > 32 && *s < 127 && *s != '\\') b[n++] = *s; else n += sprintf(b + n, "\\%03o", *s); b[n] = 0; return emit(b, 0); }
int out2(int a, int c) { char b[64]; sprintf(b, "p %d %d", a, c); return emit(b, a); }
#ifdef NATIVE
#include <xmmintrin.h>
int outf(float f) { unsigned u; memcpy(&u, &f, 4); return outf_(u); }
int vmMain(int, int, int, int, int, int, int, int, int, int, int, int, int);
int main(int argc, char** argv)
{
    int a[13] = { 0 }, i;
    _MM_SET_EXCEPTION_MASK(_MM_MASK_UNDERFLOW | _MM_MASK_INEXACT | _MM_MASK_DENORM); /* NaN, infinity: SIGFPE */
    for (i = 0; i < 13 && i + 1 < argc; i++) a[i] = (int)strtoll(argv[i + 1], 0, 0);
    done("ret", vmMain(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]));
    return 0;
}
#else
#include "vm.h"
intptr_t sys(vm_t* vm, intptr_t* a)
{
    switch (-1 - a[0]) {
    case -1: return out((int)a[1]);
    case -2: return outf_((unsigned)a[1]);
    case -3: return outs(VM_ArgPtr(a[1], vm));
    case -4: return out2((int)a[1], (int)a[2]);
    default: { char b[64]; sprintf(b, "syscall %d %d", (int)(-1 - a[0]), (int)a[1]); return emit(b, (int)a[1]); }
    }
}
void Com_Error(vmErrorCode_t level, const char* e) { done("error", (int)level); exit(7); }
void* Com_malloc(size_t n, vm_t* vm, vmMallocType_t t) { return malloc(n); }
void Com_free(void* p, vm_t* vm, vmMallocType_t t) { free(p); }
int main(int argc, char** argv)
{
    static uint8_t img[1 << 24]; vm_t vm; int a[13] = { 0 }, i; FILE* f = fopen(argv[1], "rb");
    if (!f) { printf("no image\n"); return 8; }
    int n = (int)fread(img, 1, sizeof img, f); fclose(f);
    for (i = 0; i < 13 && i + 2 < argc; i++) a[i] = (int)strtoll(argv[i + 2], 0, 0);
    if (VM_Create(&vm, argv[1], img, n, sys)) { printf("not loaded\n"); return 8; }
    i = (int)VM_Call(&vm, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12]);
    done("ret", i); VM_Free(&vm);
    return 0;
}
#endif
