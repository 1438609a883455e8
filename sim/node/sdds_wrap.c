/* Linked into every simulated node: lets calls into the SDDS library fail (see libfault in io.cpp). */
#include <stdint.h>
#include <stddef.h>
extern int sim_sdds_call(const char* fn, const char* file);
typedef void DS;
#define W0(ret, fn, decl, args, bad) ret __real_SDDS_##fn decl; ret __wrap_SDDS_##fn decl { if (sim_sdds_call("SDDS_" #fn, NULL)) return bad; return __real_SDDS_##fn args; }
int32_t __real_SDDS_InitializeOutput(DS*, int32_t, int32_t, const char*, const char*, const char*);
int32_t __wrap_SDDS_InitializeOutput(DS* d, int32_t m, int32_t l, const char* a, const char* b, const char* f) { if (sim_sdds_call("SDDS_InitializeOutput", f)) return 0; return __real_SDDS_InitializeOutput(d, m, l, a, b, f); }
int32_t __real_SDDS_InitializeInput(DS*, char*);
int32_t __wrap_SDDS_InitializeInput(DS* d, char* f) { if (sim_sdds_call("SDDS_InitializeInput", f)) return 0; return __real_SDDS_InitializeInput(d, f); }
W0(int32_t, DefineColumn, (DS* d, const char* a, const char* b, const char* c, const char* e, const char* f, int32_t t, int32_t l), (d, a, b, c, e, f, t, l), -1)
W0(int32_t, DefineSimpleParameter, (DS* d, const char* a, const char* b, int32_t t), (d, a, b, t), 0)
W0(int32_t, WriteLayout, (DS* d), (d), 0)
W0(int32_t, StartPage, (DS* d, int64_t n), (d, n), 0)
W0(int32_t, WritePage, (DS* d), (d), 0)
W0(int32_t, ReadPage, (DS* d), (d), 0)
W0(double*, GetColumnInDoubles, (DS* d, char* n), (d, n), NULL)
W0(double*, GetParameterAsDouble, (DS* d, char* n, double* v), (d, n, v), NULL)
W0(int32_t*, GetParameterAsLong, (DS* d, char* n, int32_t* v), (d, n, v), NULL)
int32_t __real_SDDS_Terminate(DS*);
int32_t __wrap_SDDS_Terminate(DS* d) { int f = sim_sdds_call("SDDS_Terminate", NULL); int32_t r = __real_SDDS_Terminate(d); return f ? 0 : r; }
/* variadic calls are passed on with all registers as they were */
static int chk_row(void) __attribute__((used)); static int chk_row(void) { return sim_sdds_call("SDDS_SetRowValues", NULL); }
static int chk_par(void) __attribute__((used)); static int chk_par(void) { return sim_sdds_call("SDDS_SetParameters", NULL); }
#define VAR(fn, chk) __asm__(".text\n.globl __wrap_SDDS_" #fn "\n.type __wrap_SDDS_" #fn ", @function\n__wrap_SDDS_" #fn ":\n" \
 "push %rbp\nmov %rsp,%rbp\npush %rdi\npush %rsi\npush %rdx\npush %rcx\npush %r8\npush %r9\npush %rax\nsub $136,%rsp\n" \
 "movups %xmm0,0(%rsp)\nmovups %xmm1,16(%rsp)\nmovups %xmm2,32(%rsp)\nmovups %xmm3,48(%rsp)\nmovups %xmm4,64(%rsp)\nmovups %xmm5,80(%rsp)\nmovups %xmm6,96(%rsp)\nmovups %xmm7,112(%rsp)\n" \
 "call " #chk "\nmov %eax,%r11d\n" \
 "movups 0(%rsp),%xmm0\nmovups 16(%rsp),%xmm1\nmovups 32(%rsp),%xmm2\nmovups 48(%rsp),%xmm3\nmovups 64(%rsp),%xmm4\nmovups 80(%rsp),%xmm5\nmovups 96(%rsp),%xmm6\nmovups 112(%rsp),%xmm7\n" \
 "add $136,%rsp\npop %rax\npop %r9\npop %r8\npop %rcx\npop %rdx\npop %rsi\npop %rdi\npop %rbp\n" \
 "test %r11d,%r11d\njz 1f\nxor %eax,%eax\nret\n1: jmp __real_SDDS_" #fn "@PLT\n");
VAR(SetRowValues, chk_row)
VAR(SetParameters, chk_par)
