// Runs a statically linked program for big-endian 32-bit MIPS Linux which
// has registers for floating-point numbers (GOARCH=mips GOMIPS=hardfloat), on a
// little-endian 64-bit host. Implements the instructions and system calls
// which Go programs use; anything else ends the program with status 120.
#define _GNU_SOURCE
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int32_t s32; typedef int64_t s64;

static u8 *mem; // 4 GiB of address space
static int trace;

static void die(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	fprintf(stderr, "mips emulator: ");
	vfprintf(stderr, fmt, ap);
	fprintf(stderr, "\n");
	_exit(120);
}

#define LD8(a) (mem[(u32)(a)])
static inline u32 ld16(u32 a) { u16 v; memcpy(&v, mem + a, 2); return __builtin_bswap16(v); }
static inline u32 ld32(u32 a) { u32 v; memcpy(&v, mem + a, 4); return __builtin_bswap32(v); }
static inline u64 ld64(u32 a) { u64 v; memcpy(&v, mem + a, 8); return __builtin_bswap64(v); }
static inline void st16(u32 a, u32 x) { u16 v = __builtin_bswap16((u16)x); memcpy(mem + a, &v, 2); }
static inline void st32(u32 a, u32 x) { u32 v = __builtin_bswap32(x); memcpy(mem + a, &v, 4); }
static inline void st64(u32 a, u64 x) { u64 v = __builtin_bswap64(x); memcpy(mem + a, &v, 8); }

// Instructions are decoded when the program is loaded.
typedef struct { u8 op, a, b, c; s32 imm; } Ins;
enum {
	I_BAD, I_NOP, I_SLL, I_SRL, I_SRA, I_SLLV, I_SRLV, I_SRAV, I_JR, I_JALR, I_MOVZ, I_MOVN, I_SYSCALL, I_BREAK, I_SYNC,
	I_MFHI, I_MTHI, I_MFLO, I_MTLO, I_MULT, I_MULTU, I_DIV, I_DIVU, I_ADDU, I_SUBU, I_AND, I_OR, I_XOR, I_NOR, I_SLT, I_SLTU,
	I_TEQ, I_TNE, I_BLTZ, I_BGEZ, I_BLTZAL, I_BGEZAL, I_J, I_JAL, I_BEQ, I_BNE, I_BLEZ, I_BGTZ,
	I_ADDIU, I_SLTI, I_SLTIU, I_ANDI, I_ORI, I_XORI, I_LUI, I_MUL, I_MADD, I_MADDU, I_MSUB, I_MSUBU, I_CLZ, I_CLO,
	I_SEB, I_SEH, I_WSBH, I_EXT, I_INS, I_ROTR,
	I_LB, I_LH, I_LWL, I_LW, I_LBU, I_LHU, I_LWR, I_SB, I_SH, I_SWL, I_SW, I_SWR, I_LL, I_SC,
	I_FP, I_MFC1, I_MTC1, I_LWC1, I_SWC1, I_LDC1, I_SDC1, I_BC1F, I_BC1T, I_MOVF, I_MOVT, I_ZERO,
	// Branches with an empty delay slot.
	N_JR, N_JALR, N_BLTZ, N_BGEZ, N_J, N_JAL, N_BEQ, N_BNE, N_BLEZ, N_BGTZ,
	N_BEQZ, N_BNEZ, N_B, I_COUNT
};
enum { HI = 33, LO = 34, NREG = 35 }; // register 32 takes results for $0

static Ins *code;
static u32 code_lo, code_hi;

#define DST(x) ((x) ? (x) : 32)

static Ins decode(u32 w, u32 pc) {
	u32 op = w >> 26, rs = w >> 21 & 31, rt = w >> 16 & 31, rd = w >> 11 & 31, sh = w >> 6 & 31, fn = w & 63;
	s32 simm = (int16_t)w;
	u32 btarget = pc + 4 + ((u32)simm << 2);
	Ins i = {I_BAD, 0, 0, 0, (s32)w};
#define R3(o) (i = (Ins){o, DST(rd), rs, rt, 0})
#define I2(o, v) (i = (Ins){o, DST(rt), rs, 0, (s32)(v)})
#define BR(o) (i = (Ins){o, rs, rt, 0, (s32)btarget})
	if (w == 0) return (Ins){I_NOP, 0, 0, 0, 0};
	switch (op) {
	case 0:
		switch (fn) {
		case 0: i = (Ins){I_SLL, DST(rd), rt, 0, sh}; break;
		case 2: i = (Ins){rs & 1 ? I_ROTR : I_SRL, DST(rd), rt, 0, sh}; break;
		case 3: i = (Ins){I_SRA, DST(rd), rt, 0, sh}; break;
		case 4: R3(I_SLLV); break;
		case 6: R3(I_SRLV); break;
		case 7: R3(I_SRAV); break;
		case 8: i = (Ins){I_JR, rs, 0, 0, 0}; break;
		case 9: i = (Ins){I_JALR, DST(rd), rs, 0, 0}; break;
		case 1: i = (Ins){rt & 1 ? I_MOVT : I_MOVF, DST(rd), rs, (u8)(rt >> 2), 0}; break;
		case 10: R3(I_MOVZ); break;
		case 11: R3(I_MOVN); break;
		case 12: i = (Ins){I_SYSCALL, 0, 0, 0, 0}; break;
		case 13: i = (Ins){I_BREAK, 0, 0, 0, 0}; break;
		case 15: i = (Ins){I_SYNC, 0, 0, 0, 0}; break;
		case 16: i = (Ins){I_MFHI, DST(rd), 0, 0, 0}; break;
		case 17: i = (Ins){I_MTHI, rs, 0, 0, 0}; break;
		case 18: i = (Ins){I_MFLO, DST(rd), 0, 0, 0}; break;
		case 19: i = (Ins){I_MTLO, rs, 0, 0, 0}; break;
		case 24: i = (Ins){I_MULT, 0, rs, rt, 0}; break;
		case 25: i = (Ins){I_MULTU, 0, rs, rt, 0}; break;
		case 26: i = (Ins){I_DIV, 0, rs, rt, 0}; break;
		case 27: i = (Ins){I_DIVU, 0, rs, rt, 0}; break;
		case 32: case 33: R3(I_ADDU); break;
		case 34: case 35: R3(I_SUBU); break;
		case 36: R3(I_AND); break;
		case 37: R3(I_OR); break;
		case 38: R3(I_XOR); break;
		case 39: R3(I_NOR); break;
		case 42: R3(I_SLT); break;
		case 43: R3(I_SLTU); break;
		case 52: i = (Ins){I_TEQ, 0, rs, rt, 0}; break;
		case 54: i = (Ins){I_TNE, 0, rs, rt, 0}; break;
		}
		break;
	case 1:
		switch (rt) {
		case 0: BR(I_BLTZ); break;
		case 1: BR(I_BGEZ); break;
		case 16: BR(I_BLTZAL); break;
		case 17: BR(I_BGEZAL); break;
		}
		break;
	case 2: i = (Ins){I_J, 0, 0, 0, (s32)(((pc + 4) & 0xf0000000) | (w & 0x3ffffff) << 2)}; break;
	case 3: i = (Ins){I_JAL, 0, 0, 0, (s32)(((pc + 4) & 0xf0000000) | (w & 0x3ffffff) << 2)}; break;
	case 4: BR(I_BEQ); break;
	case 5: BR(I_BNE); break;
	case 6: BR(I_BLEZ); break;
	case 7: BR(I_BGTZ); break;
	case 8: case 9: I2(I_ADDIU, simm); break;
	case 10: I2(I_SLTI, simm); break;
	case 11: I2(I_SLTIU, simm); break;
	case 12: I2(I_ANDI, w & 0xffff); break;
	case 13: I2(I_ORI, w & 0xffff); break;
	case 14: I2(I_XORI, w & 0xffff); break;
	case 15: i = (Ins){I_LUI, DST(rt), 0, 0, (s32)(w << 16)}; break;
	case 17:
		switch (rs) {
		case 0: i = (Ins){I_MFC1, DST(rt), rd, 0, 0}; break;
		case 2: i = (Ins){I_ZERO, DST(rt), 0, 0, 0}; break; // cfc1
		case 4: i = (Ins){I_MTC1, rt, rd, 0, 0}; break;
		case 6: i = (Ins){I_NOP, 0, 0, 0, 0}; break; // ctc1
		case 8: i = (Ins){rt & 1 ? I_BC1T : I_BC1F, 0, 0, (u8)(rt >> 2), (s32)btarget}; break;
		case 16: case 17: case 20: i = (Ins){I_FP, 0, 0, 0, (s32)w}; break;
		}
		break;
	case 28:
		switch (fn) {
		case 0: i = (Ins){I_MADD, 0, rs, rt, 0}; break;
		case 1: i = (Ins){I_MADDU, 0, rs, rt, 0}; break;
		case 2: R3(I_MUL); break;
		case 4: i = (Ins){I_MSUB, 0, rs, rt, 0}; break;
		case 5: i = (Ins){I_MSUBU, 0, rs, rt, 0}; break;
		case 32: R3(I_CLZ); break;
		case 33: R3(I_CLO); break;
		}
		break;
	case 31:
		if (fn == 0) i = (Ins){I_EXT, DST(rt), rs, rd + 1, sh};
		else if (fn == 4) i = (Ins){I_INS, DST(rt), rs, rd + 1 - sh, sh};
		else if (fn == 32 && sh == 2) i = (Ins){I_WSBH, DST(rd), rt, 0, 0};
		else if (fn == 32 && sh == 16) i = (Ins){I_SEB, DST(rd), rt, 0, 0};
		else if (fn == 32 && sh == 24) i = (Ins){I_SEH, DST(rd), rt, 0, 0};
		break;
	case 32: I2(I_LB, simm); break;
	case 33: I2(I_LH, simm); break;
	case 34: I2(I_LWL, simm); break;
	case 35: I2(I_LW, simm); break;
	case 36: I2(I_LBU, simm); break;
	case 37: I2(I_LHU, simm); break;
	case 38: I2(I_LWR, simm); break;
	case 40: i = (Ins){I_SB, rt, rs, 0, simm}; break;
	case 41: i = (Ins){I_SH, rt, rs, 0, simm}; break;
	case 42: i = (Ins){I_SWL, rt, rs, 0, simm}; break;
	case 43: i = (Ins){I_SW, rt, rs, 0, simm}; break;
	case 46: i = (Ins){I_SWR, rt, rs, 0, simm}; break;
	case 49: i = (Ins){I_LWC1, rt, rs, 0, simm}; break;
	case 53: i = (Ins){I_LDC1, rt, rs, 0, simm}; break;
	case 57: i = (Ins){I_SWC1, rt, rs, 0, simm}; break;
	case 61: i = (Ins){I_SDC1, rt, rs, 0, simm}; break;
	case 48: I2(I_LL, simm); break;
	case 51: i = (Ins){I_NOP, 0, 0, 0, 0}; break; // pref
	case 56: I2(I_SC, simm); i.c = rt; break;
	}
	return i;
}

static void decode_all(void) {
	u32 n = (code_hi - code_lo) / 4;
	code = calloc(n + 2, sizeof *code);
	if (!code) die("no memory");
	for (u32 k = 0; k < n; k++) code[k] = decode(ld32(code_lo + 4 * k), code_lo + 4 * k);
	for (u32 k = 0; k + 1 < n; k++) {
		Ins *i = &code[k];
		if (i[1].op != I_NOP) continue;
		switch (i->op) {
		case I_JR: i->op = N_JR; break;
		case I_JALR: i->op = N_JALR; break;
		case I_BLTZ: i->op = N_BLTZ; break;
		case I_BGEZ: i->op = N_BGEZ; break;
		case I_J: i->op = N_J; break;
		case I_JAL: i->op = N_JAL; break;
		case I_BEQ: i->op = i->a == i->b ? N_B : i->b == 0 ? N_BEQZ : i->a == 0 ? (i->a = i->b, N_BEQZ) : N_BEQ; break;
		case I_BNE: i->op = i->b == 0 ? N_BNEZ : i->a == 0 ? (i->a = i->b, N_BNEZ) : N_BNE; break;
		case I_BLEZ: i->op = N_BLEZ; break;
		case I_BGTZ: i->op = N_BGTZ; break;
		}
	}
}

// Threads are switched after a number of jumps and when they wait.
typedef struct Thread {
	u32 r[NREG], pc;
	u32 f[32], fcc; // a double is in two registers, the high word in the odd one
	int linked, tid, dead;
	u32 waiting;   // address of the futex, or 0
	int sleeping;  // until wake
	u64 wake;      // ns, 0: no timeout
	u32 polling;   // where to put an event, or 0
	u32 altsp, altsize, altflags;
	u64 mask[2];
	struct Thread *next;
} Thread;

static Thread *cur;
static int next_tid = 1000, quantum;

static u64 now(clockid_t c) {
	struct timespec t;
	clock_gettime(c, &t);
	return (u64)t.tv_sec * 1000000000u + t.tv_nsec;
}

enum { STOP_QUANTUM, STOP_SYSCALL, STOP_FAULT, STOP_SINGLE };
static u32 fault_addr;

static inline double getd(Thread *t, u32 n) { u64 v = (u64)t->f[n | 1] << 32 | t->f[n & ~1u]; double d; memcpy(&d, &v, 8); return d; }
static inline void setd(Thread *t, u32 n, double d) { u64 v; memcpy(&v, &d, 8); t->f[n | 1] = (u32)(v >> 32); t->f[n & ~1u] = (u32)v; }
static inline float getf(Thread *t, u32 n) { float d; memcpy(&d, &t->f[n], 4); return d; }
static inline void setf(Thread *t, u32 n, float d) { memcpy(&t->f[n], &d, 4); }

static s32 toint(double d, u32 mode) {
	d = mode == 0 ? nearbyint(d) : mode == 1 ? trunc(d) : mode == 2 ? ceil(d) : floor(d);
	return d >= -2147483648.0 && d <= 2147483647.0 ? (s32)d : 0x7fffffff;
}

// fpu executes a floating-point instruction. It reports whether it knows it.
static int fpu(Thread *t, u32 w) {
	u32 fmt = w >> 21 & 31, ft = w >> 16 & 31, fs = w >> 11 & 31, fd = w >> 6 & 31, fn = w & 63;
	if (fmt == 20) {
		if (fn == 32) setf(t, fd, (float)(s32)t->f[fs]);
		else if (fn == 33) setd(t, fd, (double)(s32)t->f[fs]);
		else return 0;
		return 1;
	}
	if (fn >= 48) {
		double a, b;
		if (fmt == 17) { a = getd(t, fs); b = getd(t, ft); } else { a = getf(t, fs); b = getf(t, ft); }
		u32 c = a != a || b != b ? fn & 1 : ((fn & 2) && a == b) || ((fn & 4) && a < b), cc = fd >> 2;
		t->fcc = (t->fcc & ~(1u << cc)) | c << cc;
		return 1;
	}
	if (fmt == 17) {
		switch (fn) {
		case 0: setd(t, fd, getd(t, fs) + getd(t, ft)); return 1;
		case 1: setd(t, fd, getd(t, fs) - getd(t, ft)); return 1;
		case 2: setd(t, fd, getd(t, fs) * getd(t, ft)); return 1;
		case 3: setd(t, fd, getd(t, fs) / getd(t, ft)); return 1;
		case 4: setd(t, fd, sqrt(getd(t, fs))); return 1;
		case 5: { u32 h = t->f[fs | 1] & 0x7fffffff; t->f[fd & ~1u] = t->f[fs & ~1u]; t->f[fd | 1] = h; return 1; }
		case 6: { u32 h = t->f[fs | 1]; t->f[fd & ~1u] = t->f[fs & ~1u]; t->f[fd | 1] = h; return 1; }
		case 7: { u32 h = t->f[fs | 1] ^ 0x80000000u; t->f[fd & ~1u] = t->f[fs & ~1u]; t->f[fd | 1] = h; return 1; }
		case 12: case 13: case 14: case 15: t->f[fd] = (u32)toint(getd(t, fs), fn - 12); return 1;
		case 36: t->f[fd] = (u32)toint(getd(t, fs), 0); return 1;
		case 32: setf(t, fd, (float)getd(t, fs)); return 1;
		}
		return 0;
	}
	switch (fn) {
	case 0: setf(t, fd, getf(t, fs) + getf(t, ft)); return 1;
	case 1: setf(t, fd, getf(t, fs) - getf(t, ft)); return 1;
	case 2: setf(t, fd, getf(t, fs) * getf(t, ft)); return 1;
	case 3: setf(t, fd, getf(t, fs) / getf(t, ft)); return 1;
	case 4: setf(t, fd, sqrtf(getf(t, fs))); return 1;
	case 5: t->f[fd] = t->f[fs] & 0x7fffffff; return 1;
	case 6: t->f[fd] = t->f[fs]; return 1;
	case 7: t->f[fd] = t->f[fs] ^ 0x80000000u; return 1;
	case 12: case 13: case 14: case 15: t->f[fd] = (u32)toint(getf(t, fs), fn - 12); return 1;
	case 36: t->f[fd] = (u32)toint(getf(t, fs), 0); return 1;
	case 33: setd(t, fd, (double)getf(t, fs)); return 1;
	}
	return 0;
}

static int run(Thread *t, int single) {
	static void *const normal[I_COUNT] = {
#define L(x) [x] = &&l_##x
		L(I_BAD), L(I_NOP), L(I_SLL), L(I_SRL), L(I_SRA), L(I_SLLV), L(I_SRLV), L(I_SRAV), L(I_JR), L(I_JALR), L(I_MOVZ), L(I_MOVN), L(I_SYSCALL),
		L(I_BREAK), L(I_SYNC), L(I_MFHI), L(I_MTHI), L(I_MFLO), L(I_MTLO), L(I_MULT), L(I_MULTU), L(I_DIV), L(I_DIVU), L(I_ADDU), L(I_SUBU), L(I_AND),
		L(I_OR), L(I_XOR), L(I_NOR), L(I_SLT), L(I_SLTU), L(I_TEQ), L(I_TNE), L(I_BLTZ), L(I_BGEZ), L(I_BLTZAL), L(I_BGEZAL), L(I_J), L(I_JAL),
		L(I_BEQ), L(I_BNE), L(I_BLEZ), L(I_BGTZ), L(I_ADDIU), L(I_SLTI), L(I_SLTIU), L(I_ANDI), L(I_ORI), L(I_XORI), L(I_LUI), L(I_MUL), L(I_MADD),
		L(I_MADDU), L(I_MSUB), L(I_MSUBU), L(I_CLZ), L(I_CLO), L(I_SEB), L(I_SEH), L(I_WSBH), L(I_EXT), L(I_INS), L(I_ROTR), L(I_LB), L(I_LH), L(I_LWL),
		L(I_LW), L(I_LBU), L(I_LHU), L(I_LWR), L(I_SB), L(I_SH), L(I_SWL), L(I_SW), L(I_SWR), L(I_LL), L(I_SC), L(I_FP), L(I_MFC1), L(I_MTC1), L(I_LWC1),
		L(I_SWC1), L(I_LDC1), L(I_SDC1), L(I_BC1F), L(I_BC1T), L(I_MOVF), L(I_MOVT), L(I_ZERO), L(N_JR), L(N_JALR), L(N_BLTZ), L(N_BGEZ),
		L(N_J), L(N_JAL), L(N_BEQ), L(N_BNE), L(N_BLEZ), L(N_BGTZ), L(N_BEQZ), L(N_BNEZ), L(N_B),
	};
	static void *ret[I_COUNT];
	if (!ret[0]) for (int k = 0; k < I_COUNT; k++) ret[k] = &&l_single;
	void *const *table = single ? ret : normal;
	u32 *r = t->r;
	const Ins *i;
	u32 addr, target;
	if (t->pc < code_lo || t->pc >= code_hi || t->pc & 3) { fault_addr = t->pc; return STOP_FAULT; }
	i = code + (t->pc - code_lo) / 4;
	goto *normal[i->op];
#define PC (code_lo + (u32)(i - code) * 4)
#define NEXT do { i++; goto *table[i->op]; } while (0)
#define S(x) ((s32)r[x])
#define CASE(x) l_##x
#define ADDR addr = r[i->b] + (u32)i->imm; if (__builtin_expect(addr < 4096, 0)) goto fault
#define GO(x) do { u32 to_ = (x); \
		if (__builtin_expect(to_ < code_lo || to_ >= code_hi || to_ & 3, 0)) { t->pc = PC; fault_addr = to_; return STOP_FAULT; } \
		i = code + (to_ - code_lo) / 4; \
		if (__builtin_expect(--quantum < 0, 0)) { t->pc = PC; return STOP_QUANTUM; } \
		goto *table[i->op]; } while (0)
	// The targets of jumps within the program need no check.
#define FAR(x) do { i = code + ((u32)(x) - code_lo) / 4; \
		if (__builtin_expect(--quantum < 0, 0)) { t->pc = PC; return STOP_QUANTUM; } \
		goto *table[i->op]; } while (0)
	// With an instruction in the delay slot.
#define DELAY(cond, to) do { target = (cond) ? (u32)(to) : PC + 8; u32 pc_ = PC; t->pc = pc_ + 4; int q_ = run(t, 1); \
		if (q_ != STOP_SINGLE) { t->pc = pc_; return q_; } GO(target); } while (0)
	CASE(I_BAD): die("unknown instruction %08x at %08x", (u32)i->imm, PC);
	CASE(I_NOP): NEXT;
	CASE(I_SYNC): NEXT;
	CASE(I_SLL): r[i->a] = r[i->b] << i->imm; NEXT;
	CASE(I_SRL): r[i->a] = r[i->b] >> i->imm; NEXT;
	CASE(I_SRA): r[i->a] = (u32)(S(i->b) >> i->imm); NEXT;
	CASE(I_ROTR): r[i->a] = r[i->b] >> i->imm | (u64)r[i->b] << (32 - i->imm); NEXT;
	CASE(I_SLLV): r[i->a] = r[i->c] << (r[i->b] & 31); NEXT;
	CASE(I_SRLV): r[i->a] = r[i->c] >> (r[i->b] & 31); NEXT;
	CASE(I_SRAV): r[i->a] = (u32)(S(i->c) >> (r[i->b] & 31)); NEXT;
	CASE(I_MOVZ): if (r[i->c] == 0) r[i->a] = r[i->b]; NEXT;
	CASE(I_MOVN): if (r[i->c] != 0) r[i->a] = r[i->b]; NEXT;
	CASE(I_SYSCALL): if (single) die("system call in a delay slot"); t->pc = PC + 4; return STOP_SYSCALL;
	CASE(I_BREAK): die("break at %08x", PC);
	CASE(I_MFHI): r[i->a] = r[HI]; NEXT;
	CASE(I_MTHI): r[HI] = r[i->a]; NEXT;
	CASE(I_MFLO): r[i->a] = r[LO]; NEXT;
	CASE(I_MTLO): r[LO] = r[i->a]; NEXT;
	CASE(I_MULT): { s64 v = (s64)S(i->b) * S(i->c); r[HI] = (u32)((u64)v >> 32); r[LO] = (u32)v; } NEXT;
	CASE(I_MULTU): { u64 v = (u64)r[i->b] * r[i->c]; r[HI] = (u32)(v >> 32); r[LO] = (u32)v; } NEXT;
	CASE(I_DIV): if (r[i->c] == 0) { r[HI] = r[LO] = 0; } else if (r[i->b] == 0x80000000u && r[i->c] == 0xffffffffu) { r[LO] = 0x80000000u; r[HI] = 0; }
		else { s32 x_ = S(i->b), y_ = S(i->c); r[LO] = (u32)(x_ / y_); r[HI] = (u32)(x_ % y_); } NEXT;
	CASE(I_DIVU): if (r[i->c] == 0) { r[HI] = r[LO] = 0; } else { u32 x_ = r[i->b], y_ = r[i->c]; r[LO] = x_ / y_; r[HI] = x_ % y_; } NEXT;
	CASE(I_ADDU): r[i->a] = r[i->b] + r[i->c]; NEXT;
	CASE(I_SUBU): r[i->a] = r[i->b] - r[i->c]; NEXT;
	CASE(I_AND): r[i->a] = r[i->b] & r[i->c]; NEXT;
	CASE(I_OR): r[i->a] = r[i->b] | r[i->c]; NEXT;
	CASE(I_XOR): r[i->a] = r[i->b] ^ r[i->c]; NEXT;
	CASE(I_NOR): r[i->a] = ~(r[i->b] | r[i->c]); NEXT;
	CASE(I_SLT): r[i->a] = S(i->b) < S(i->c); NEXT;
	CASE(I_SLTU): r[i->a] = r[i->b] < r[i->c]; NEXT;
	CASE(I_TEQ): if (r[i->b] == r[i->c]) die("trap at %08x", PC); NEXT;
	CASE(I_TNE): if (r[i->b] != r[i->c]) die("trap at %08x", PC); NEXT;
	CASE(I_ADDIU): r[i->a] = r[i->b] + (u32)i->imm; NEXT;
	CASE(I_SLTI): r[i->a] = S(i->b) < i->imm; NEXT;
	CASE(I_SLTIU): r[i->a] = r[i->b] < (u32)i->imm; NEXT;
	CASE(I_ANDI): r[i->a] = r[i->b] & (u32)i->imm; NEXT;
	CASE(I_ORI): r[i->a] = r[i->b] | (u32)i->imm; NEXT;
	CASE(I_XORI): r[i->a] = r[i->b] ^ (u32)i->imm; NEXT;
	CASE(I_LUI): r[i->a] = (u32)i->imm; NEXT;
	CASE(I_MUL): r[i->a] = r[i->b] * r[i->c]; NEXT;
#define HILO ((u64)r[HI] << 32 | r[LO])
#define SETHILO(v) do { u64 v_ = (v); r[HI] = (u32)(v_ >> 32); r[LO] = (u32)v_; } while (0)
	CASE(I_MADD): SETHILO(HILO + (u64)((s64)S(i->b) * S(i->c))); NEXT;
	CASE(I_MADDU): SETHILO(HILO + (u64)r[i->b] * r[i->c]); NEXT;
	CASE(I_MSUB): SETHILO(HILO - (u64)((s64)S(i->b) * S(i->c))); NEXT;
	CASE(I_MSUBU): SETHILO(HILO - (u64)r[i->b] * r[i->c]); NEXT;
	CASE(I_CLZ): r[i->a] = r[i->b] ? (u32)__builtin_clz(r[i->b]) : 32; NEXT;
	CASE(I_CLO): r[i->a] = ~r[i->b] ? (u32)__builtin_clz(~r[i->b]) : 32; NEXT;
	CASE(I_SEB): r[i->a] = (u32)(int8_t)r[i->b]; NEXT;
	CASE(I_SEH): r[i->a] = (u32)(int16_t)r[i->b]; NEXT;
	CASE(I_WSBH): { u32 v = r[i->b]; r[i->a] = (v & 0xff00ff) << 8 | (v >> 8 & 0xff00ff); } NEXT;
	CASE(I_EXT): r[i->a] = r[i->b] >> i->imm & (u32)((1ull << i->c) - 1); NEXT;
	CASE(I_INS): { u32 m = (u32)((1ull << i->c) - 1) << i->imm; r[i->a] = (r[i->a] & ~m) | (r[i->b] << i->imm & m); } NEXT;
	CASE(I_LB): ADDR; r[i->a] = (u32)(int8_t)LD8(addr); NEXT;
	CASE(I_LBU): ADDR; r[i->a] = LD8(addr); NEXT;
	CASE(I_LH): ADDR; r[i->a] = (u32)(int16_t)ld16(addr); NEXT;
	CASE(I_LHU): ADDR; r[i->a] = ld16(addr); NEXT;
	CASE(I_LW): ADDR; r[i->a] = ld32(addr); NEXT;
	CASE(I_LL): ADDR; if (addr & 3) goto unaligned; r[i->a] = ld32(addr); t->linked = 1; NEXT;
	CASE(I_SB): ADDR; LD8(addr) = (u8)r[i->a]; NEXT;
	CASE(I_SH): ADDR; st16(addr, r[i->a]); NEXT;
	CASE(I_SW): ADDR; st32(addr, r[i->a]); NEXT;
	CASE(I_SC): ADDR; if (addr & 3) goto unaligned; if (t->linked) st32(addr, r[i->c]); r[i->a] = (u32)t->linked; t->linked = 0; NEXT;
	CASE(I_LWL): ADDR; { u32 k = addr & 3, w = ld32(addr & ~3u); r[i->a] = w << 8 * k | (r[i->a] & (u32)((1ull << 8 * k) - 1)); } NEXT;
	CASE(I_LWR): ADDR; { u32 k = addr & 3, w = ld32(addr & ~3u); r[i->a] = w >> 8 * (3 - k) | (k == 3 ? 0 : r[i->a] & (0xffffffffu << 8 * (k + 1))); } NEXT;
	CASE(I_SWL): ADDR; { u32 k = addr & 3, v = r[i->a]; for (u32 j = k; j < 4; j++) LD8((addr & ~3u) + j) = (u8)(v >> 8 * (3 - (j - k))); } NEXT;
	CASE(I_SWR): ADDR; { u32 k = addr & 3, v = r[i->a]; for (u32 j = 0; j <= k; j++) LD8((addr & ~3u) + j) = (u8)(v >> 8 * (k - j)); } NEXT;

	CASE(I_FP): if (!fpu(t, (u32)i->imm)) die("unknown floating-point instruction %08x at %08x", (u32)i->imm, PC); NEXT;
	CASE(I_MFC1): r[i->a] = t->f[i->b]; NEXT;
	CASE(I_MTC1): t->f[i->b] = r[i->a]; NEXT;
	CASE(I_LWC1): ADDR; t->f[i->a] = ld32(addr); NEXT;
	CASE(I_SWC1): ADDR; st32(addr, t->f[i->a]); NEXT;
	CASE(I_LDC1): ADDR; t->f[i->a + 1] = ld32(addr); t->f[i->a] = ld32(addr + 4); NEXT;
	CASE(I_SDC1): ADDR; st32(addr, t->f[i->a + 1]); st32(addr + 4, t->f[i->a]); NEXT;
	CASE(I_MOVF): if (!(t->fcc >> i->c & 1)) r[i->a] = r[i->b]; NEXT;
	CASE(I_MOVT): if (t->fcc >> i->c & 1) r[i->a] = r[i->b]; NEXT;
	CASE(I_ZERO): r[i->a] = 0; NEXT;
	CASE(I_BC1F): DELAY(!(t->fcc >> i->c & 1), i->imm);
	CASE(I_BC1T): DELAY(t->fcc >> i->c & 1, i->imm);

	CASE(N_JR): GO(r[i->a]);
	CASE(N_JALR): { u32 to = r[i->b]; r[i->a] = PC + 8; GO(to); }
	CASE(N_J): FAR(i->imm);
	CASE(N_JAL): r[31] = PC + 8; FAR(i->imm);
#define BRANCH(c) if (c) FAR(i->imm); i += 2; goto *table[i->op]
	CASE(N_B): FAR(i->imm);
	CASE(N_BEQ): BRANCH(r[i->a] == r[i->b]);
	CASE(N_BNE): BRANCH(r[i->a] != r[i->b]);
	CASE(N_BEQZ): BRANCH(r[i->a] == 0);
	CASE(N_BNEZ): BRANCH(r[i->a] != 0);
	CASE(N_BLEZ): BRANCH(S(i->a) <= 0);
	CASE(N_BGTZ): BRANCH(S(i->a) > 0);
	CASE(N_BLTZ): BRANCH(S(i->a) < 0);
	CASE(N_BGEZ): BRANCH(S(i->a) >= 0);

	CASE(I_JR): { u32 to = r[i->a]; DELAY(1, to); }
	CASE(I_JALR): { u32 to = r[i->b]; r[i->a] = PC + 8; DELAY(1, to); }
	CASE(I_J): DELAY(1, i->imm);
	CASE(I_JAL): r[31] = PC + 8; DELAY(1, i->imm);
	CASE(I_BEQ): DELAY(r[i->a] == r[i->b], i->imm);
	CASE(I_BNE): DELAY(r[i->a] != r[i->b], i->imm);
	CASE(I_BLEZ): DELAY(S(i->a) <= 0, i->imm);
	CASE(I_BGTZ): DELAY(S(i->a) > 0, i->imm);
	CASE(I_BLTZ): DELAY(S(i->a) < 0, i->imm);
	CASE(I_BGEZ): DELAY(S(i->a) >= 0, i->imm);
	CASE(I_BLTZAL): { int c_ = S(i->a) < 0; r[31] = PC + 8; DELAY(c_, i->imm); }
	CASE(I_BGEZAL): { int c_ = S(i->a) >= 0; r[31] = PC + 8; DELAY(c_, i->imm); }
l_single:
	return STOP_SINGLE;
unaligned:
	die("unaligned access to %08x at %08x", addr, PC);
fault:
	t->pc = PC;
	fault_addr = addr;
	return STOP_FAULT;
}

// Signals: only those which the program causes itself.
static struct { u32 flags, handler; u64 mask[2]; } sigs[129];

static void deliver(Thread *t, int sig, u32 code_, u32 addr) {
	if (sigs[sig].handler <= 1) die("signal %d at %08x, address %08x", sig, t->pc, addr);
	u32 sp = t->r[29];
	if (sigs[sig].flags & 0x08000000 && !(t->altflags & 2) && t->altsize && !(sp > t->altsp && sp <= t->altsp + t->altsize))
		sp = t->altsp + t->altsize;
	sp = (sp - 2048) & ~15u;
	memset(mem + sp, 0, 1024);
	u32 info = sp + 24, uc = info + 128, sc = uc + 24;
	st32(info, (u32)sig); st32(info + 4, code_); st32(info + 12, addr);
	st32(uc + 8, t->altsp); st32(uc + 12, t->altsize); st32(uc + 16, t->altflags);
	st64(sc + 8, t->pc);
	for (int k = 0; k < 32; k++) st64(sc + 16 + 8 * k, (u64)(s64)(s32)t->r[k]);
	u32 tail = sc + 16 + 512 + 16;
	st64(tail + 8, t->r[HI]); st64(tail + 16, t->r[LO]);
	// The address to return to makes the system call rt_sigreturn.
	t->r[4] = (u32)sig; t->r[5] = info; t->r[6] = uc; t->r[29] = sp; t->r[25] = sigs[sig].handler;
	t->r[31] = code_hi - 8;
	t->pc = sigs[sig].handler;
	t->linked = 0;
}

static void sigreturn(Thread *t) {
	u32 sc = t->r[29] + 24 + 128 + 24;
	t->pc = (u32)ld64(sc + 8);
	for (int k = 1; k < 32; k++) t->r[k] = (u32)ld64(sc + 16 + 8 * k);
	u32 tail = sc + 16 + 512 + 16;
	t->r[HI] = (u32)ld64(tail + 8); t->r[LO] = (u32)ld64(tail + 16);
}

static u32 map_next = 0x20000000;

static s64 do_mmap(u32 addr, u32 len, u32 prot, u32 flags, s32 fd) {
	len = (len + 4095) & ~4095u;
	if (!len) return -EINVAL;
	if (fd != -1 && !(flags & 0x800)) return -ENODEV; // MAP_ANONYMOUS
	if (!(flags & 0x10)) { // MAP_FIXED
		if (len > 0x7fff0000u - map_next) return -ENOMEM;
		addr = map_next;
		map_next += len;
	}
	if (addr & 4095 || addr < 4096 || (u64)addr + len > 0x80000000u) return -EINVAL;
	(void)prot;
	if (mmap(mem + addr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0) == MAP_FAILED) return -errno;
	return addr;
}

static void put_stat(u32 a, struct stat *s) {
	memset(mem + a, 0, 104);
	st32(a, (u32)s->st_dev); st64(a + 16, s->st_ino); st32(a + 24, s->st_mode); st32(a + 28, (u32)s->st_nlink);
	st32(a + 32, s->st_uid); st32(a + 36, s->st_gid); st32(a + 40, (u32)s->st_rdev);
	st64(a + 56, (u64)s->st_size);
	st32(a + 64, (u32)s->st_atime); st32(a + 72, (u32)s->st_mtime); st32(a + 80, (u32)s->st_ctime);
	st32(a + 88, (u32)s->st_blksize); st64(a + 96, (u64)s->st_blocks);
}

static int open_flags(u32 f) {
	int o = (int)(f & 3);
	if (f & 8) o |= O_APPEND;
	if (f & 0x100) o |= O_CREAT;
	if (f & 0x200) o |= O_TRUNC;
	if (f & 0x400) o |= O_EXCL;
	if (f & 0x80) o |= O_NONBLOCK;
	if (f & 0x80000) o |= O_CLOEXEC;
	if (f & 0x10000) o |= O_DIRECTORY;
	return o;
}

static s64 ret(s64 x) { return x < 0 ? -(s64)errno : x; }
#define RET(x) ret((s64)(x))

// The network poller: files are not pollable, and there is one event file.
static int epoll_fd = -1, event_fd = -1, event_pending;
static u32 event_data[2];

static s64 put_event(u32 a) {
	st32(a, 1); st32(a + 4, 0); st32(a + 8, event_data[0]); st32(a + 12, event_data[1]);
	return 1;
}

static void signal_event(void) {
	event_pending = 1;
	Thread *x = cur;
	do {
		if (x->polling && !x->dead) {
			x->r[2] = (u32)put_event(x->polling);
			x->r[7] = 0;
			x->polling = 0;
			x->sleeping = 0;
			x->wake = 0;
			return;
		}
		x = x->next;
	} while (x != cur);
}

// Returns the result or a negative error number; sets *done if the thread
// waits or ends, or its registers are set.
static s64 sys(Thread *t, u32 nr, int *done) {
	u32 a = t->r[4], b = t->r[5], c = t->r[6], d = t->r[7], e = ld32(t->r[29] + 16), f = ld32(t->r[29] + 20);
	(void)f;
	struct stat s;
	switch (nr) {
	case 4001: t->dead = 1; *done = 1; return 0; // exit
	case 4246: exit((int)a);                     // exit_group
	case 4003:
		if ((int)a == event_fd && c >= 8) { if (!event_pending) return -EAGAIN; event_pending = 0; st64(b, 1); return 8; }
		return RET(read((int)a, mem + b, c));
	case 4004:
		if ((int)a == event_fd) { signal_event(); return c; }
		return RET(write((int)a, mem + b, c));
	case 4006: return RET(close((int)a));
	case 4326: return RET(epoll_fd = open("/dev/null", O_RDONLY | O_CLOEXEC)); // epoll_create1
	case 4325: return RET(event_fd = open("/dev/null", O_RDONLY | O_CLOEXEC)); // eventfd2
	case 4249: // epoll_ctl
		if ((int)c != event_fd) return -EPERM;
		if (b == 1) { event_data[0] = ld32(d + 8); event_data[1] = ld32(d + 12); }
		return 0;
	case 4313: // epoll_pwait
		if (event_pending) return put_event(b);
		if (d == 0) return 0;
		t->sleeping = 1;
		t->polling = b;
		t->wake = (s32)d < 0 ? 0 : now(CLOCK_MONOTONIC) + (u64)d * 1000000u + 1;
		*done = 1;
		return 0;
	case 4020: return 1000;                      // getpid
	case 4222: return t->tid;                    // gettid
	case 4024: case 4047: case 4049: case 4050: return 0; // getuid etc.
	case 4045: return 0;                         // brk
	case 4090: return do_mmap(a, b, c, d, (s32)e);
	case 4210: return do_mmap(a, b, c, d, (s32)e);
	case 4091: // munmap
		if (a >= 4096 && (u64)a + b <= 0x80000000u) mmap(mem + a, b, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
		return 0;
	case 4125: return 0;                         // mprotect
	case 4218:                                   // madvise
		if (c == 4 && a >= 4096 && (u64)a + b <= 0x80000000u) madvise(mem + a, b, MADV_DONTNEED);
		return 0;
	case 4217: return -ENOSYS; // mincore
	case 4194: // rt_sigaction
		if (a < 1 || a > 128) return -EINVAL;
		if (c) { st32(c, sigs[a].flags); st32(c + 4, sigs[a].handler); st64(c + 8, sigs[a].mask[0]); st64(c + 16, sigs[a].mask[1]); }
		if (b) { sigs[a].flags = ld32(b); sigs[a].handler = ld32(b + 4); sigs[a].mask[0] = ld64(b + 8); sigs[a].mask[1] = ld64(b + 16); }
		return 0;
	case 4195: // rt_sigprocmask; nothing ever blocks a signal that matters
		if (c) { st64(c, t->mask[0]); st64(c + 8, t->mask[1]); }
		if (b) { t->mask[0] = ld64(b); t->mask[1] = ld64(b + 8); }
		return 0;
	case 4206: // sigaltstack
		if (b) { st32(b, t->altsp); st32(b + 4, t->altsize); st32(b + 8, t->altsize ? t->altflags : 2); }
		if (a) { t->altsp = ld32(a); t->altsize = ld32(a + 4); t->altflags = ld32(a + 8); }
		return 0;
	case 4193: sigreturn(t); *done = 1; return 0;
	case 4120: { // clone
		Thread *n = calloc(1, sizeof *n);
		*n = *t;
		n->tid = ++next_tid;
		n->r[29] = b;
		n->r[2] = 0;
		n->r[7] = 0;
		n->altsp = n->altsize = n->altflags = 0;
		n->linked = 0;
		n->next = t->next;
		t->next = n;
		return n->tid;
	}
	case 4238: case 4422: { // futex
		u32 op = b & 0x7f;
		if (op == 0) {
			if (ld32(a) != c) return -EAGAIN;
			t->waiting = a;
			t->wake = 0;
			if (d) {
				u64 ns = nr == 4422 ? ld64(d) * 1000000000u + ld32(d + 8) : ld32(d) * 1000000000ull + ld32(d + 4);
				t->wake = now(CLOCK_MONOTONIC) + ns + 1;
			}
			*done = 1;
			return 0;
		}
		if (op == 1) {
			s64 n = 0;
			Thread *x = t->next;
			for (; x != t && n < (s32)c; x = x->next) if (x->waiting == a && !x->dead) {
				x->waiting = 0;
				x->r[2] = x->r[7] = 0;
				n++;
			}
			return n;
		}
		return -ENOSYS;
	}
	case 4166: case 4265: case 4407: { // nanosleep, clock_nanosleep
		u32 p = nr == 4166 ? a : c;
		u64 ns = nr == 4407 ? ld64(p) * 1000000000u + ld32(p + 8) : ld32(p) * 1000000000ull + ld32(p + 4);
		t->sleeping = 1;
		t->wake = now(CLOCK_MONOTONIC) + ns + 1;
		*done = 1;
		return 0;
	}
	case 4162: quantum = 0; return 0; // sched_yield
	case 4240: // sched_getaffinity: one processor
		memset(mem + c, 0, b);
		mem[c + 3] = 1;
		return 4;
	case 4263: case 4403: { // clock_gettime
		u64 v = now(a == 1 || a == 4 || a == 6 || a == 7 ? CLOCK_MONOTONIC : a == 2 ? CLOCK_PROCESS_CPUTIME_ID : a == 3 ? CLOCK_THREAD_CPUTIME_ID : CLOCK_REALTIME);
		if (nr == 4263) { st32(b, (u32)(v / 1000000000u)); st32(b + 4, (u32)(v % 1000000000u)); }
		else { st64(b, v / 1000000000u); st32(b + 8, (u32)(v % 1000000000u)); st32(b + 12, 0); }
		return 0;
	}
	case 4078: { // gettimeofday
		u64 v = now(CLOCK_REALTIME);
		st32(a, (u32)(v / 1000000000u)); st32(a + 4, (u32)(v % 1000000000u / 1000));
		return 0;
	}
	case 4077: { // getrusage
		u64 v = now(CLOCK_PROCESS_CPUTIME_ID);
		memset(mem + b, 0, 72);
		st32(b, (u32)(v / 1000000000u)); st32(b + 4, (u32)(v % 1000000000u / 1000));
		return 0;
	}
	case 4266: case 4037: case 4268: // tgkill, kill
		if ((nr == 4037 ? b : c) == 23 || (nr == 4037 ? b : c) == 21) return 0; // SIGURG
		die("signal %u sent to itself", nr == 4037 ? b : c);
		return 0;
	case 4353: return RET(getrandom(mem + a, b, 0));
	case 4288: return RET(openat((s32)a == -100 ? AT_FDCWD : (int)a, (char *)mem + b, open_flags(c), d));
	case 4005: return RET(open((char *)mem + a, open_flags(b), c));
	case 4085: return RET(readlink((char *)mem + a, (char *)mem + b, c));
	case 4298: return RET(readlinkat((s32)a == -100 ? AT_FDCWD : (int)a, (char *)mem + b, (char *)mem + c, d));
	case 4019: return RET(lseek((int)a, (s32)b, (int)c));
	case 4140: { // _llseek
		off_t o = lseek((int)a, (off_t)((u64)b << 32 | c), (int)e);
		if (o < 0) return -errno;
		st64(d, (u64)o);
		return 0;
	}
	case 4215: if (fstat((int)a, &s) < 0) return -errno; put_stat(b, &s); return 0;
	case 4213: if (stat((char *)mem + a, &s) < 0) return -errno; put_stat(b, &s); return 0;
	case 4214: if (lstat((char *)mem + a, &s) < 0) return -errno; put_stat(b, &s); return 0;
	case 4293: if (fstatat((s32)a == -100 ? AT_FDCWD : (int)a, (char *)mem + b, &s, (int)d) < 0) return -errno; put_stat(c, &s); return 0;
	case 4010: return RET(unlink((char *)mem + a));
	case 4294: return RET(unlinkat((s32)a == -100 ? AT_FDCWD : (int)a, (char *)mem + b, (int)c));
	case 4295: return RET(renameat((s32)a == -100 ? AT_FDCWD : (int)a, (char *)mem + b, (s32)c == -100 ? AT_FDCWD : (int)c, (char *)mem + d));
	case 4038: return RET(rename((char *)mem + a, (char *)mem + b));
	case 4351: return -ENOSYS; // renameat2
	case 4055: case 4220: // fcntl
		if (b == 1 || b == 2 || b == 3) { int v = fcntl((int)a, (int)b, (int)c); if (b == 3 && v >= 0) v &= 3; return RET(v); }
		return 0;
	case 4076: case 4191: case 4075: // getrlimit, setrlimit
		if (nr != 4075) { st32(b, 0x7fffffff); st32(b + 4, 0x7fffffff); }
		return 0;
	case 4338: if (d) { st64(d, 1 << 20); st64(d + 8, 1 << 20); } return 0; // prlimit64
	case 4122: { // uname
		memset(mem + a, 0, 65 * 6);
		strcpy((char *)mem + a, "Linux"); strcpy((char *)mem + a + 130, "5.10.0"); strcpy((char *)mem + a + 260, "mips");
		return 0;
	}
	case 4104: case 4257: case 4258: case 4261: case 4409: return 0; // timers
	case 4192: return -EINVAL;                                       // prctl
	case 4328: return -ENOSYS;
	}
	if (trace) fprintf(stderr, "mips emulator: unknown system call %u\n", nr);
	return -ENOSYS;
}

// schedule sets cur to the next thread which can run.
static void schedule(void) {
	for (;;) {
		u64 t = 0, first = ~(u64)0;
		Thread *last = cur, *x = cur->next;
		for (;; last = x, x = x->next) {
			while (x->dead) {
				if (x == last) exit(0); // the last one
				last->next = x->next;
				if (x == cur) cur = last;
				free(x);
				x = last->next;
			}
			if (!x->waiting && !x->sleeping) { cur = x; return; }
			if (x->wake) {
				if (!t) t = now(CLOCK_MONOTONIC);
				if (x->wake <= t) {
					x->r[2] = x->waiting ? 145 : 0; // ETIMEDOUT
					x->r[7] = x->waiting ? 1 : 0;
					x->waiting = 0;
					x->sleeping = 0;
					x->polling = 0;
					x->wake = 0;
					cur = x;
					return;
				}
				if (x->wake < first) first = x->wake;
			}
			if (x == cur) break;
		}
		if (first == ~(u64)0) die("all threads wait for ever");
		t = now(CLOCK_MONOTONIC);
		if (first > t) {
			struct timespec ts = {(time_t)((first - t) / 1000000000u), (long)((first - t) % 1000000000u)};
			nanosleep(&ts, 0);
		}
	}
}

int main(int argc, char **argv, char **envp) {
	if (argc < 2) die("usage: mips PROGRAM ARG...");
	trace = getenv("MIPS_TRACE") != 0;
	mem = mmap(0, (1ull << 32) + 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (mem == MAP_FAILED) die("no memory");
	int fd = open(argv[1], O_RDONLY);
	struct stat s;
	if (fd < 0 || fstat(fd, &s) < 0) die("cannot open %s", argv[1]);
	u8 *file = mmap(0, (size_t)s.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	if (file == MAP_FAILED) die("cannot map %s", argv[1]);
	close(fd);
	Elf32_Ehdr *h = (Elf32_Ehdr *)file;
#define B16(x) __builtin_bswap16(x)
#define B32(x) __builtin_bswap32(x)
	if (s.st_size < 52 || memcmp(h->e_ident, "\x7f" "ELF\x01\x02", 6) || B16(h->e_machine) != EM_MIPS) die("%s is no program for big-endian MIPS", argv[1]);
	for (int k = 0; k < B16(h->e_phnum); k++) {
		Elf32_Phdr *p = (Elf32_Phdr *)(file + B32(h->e_phoff) + k * B16(h->e_phentsize));
		if (B32(p->p_type) != PT_LOAD) continue;
		u32 va = B32(p->p_vaddr), fs = B32(p->p_filesz);
		memcpy(mem + va, file + B32(p->p_offset), fs);
		if (B32(p->p_flags) & PF_X) { code_lo = va; code_hi = va + fs; }
	}
	// Room for the code signal handlers return to.
	code_hi = (code_hi + 16) & ~3u;
	st32(code_hi - 12, 0);
	st32(code_hi - 8, 0x24020000 | 4193); // li v0, rt_sigreturn
	st32(code_hi - 4, 0x0000000c);        // syscall
	u32 entry = B32(h->e_entry);
	decode_all();
	munmap(file, (size_t)s.st_size);

	Thread *t = calloc(1, sizeof *t);
	t->tid = 1000;
	t->next = t;
	cur = t;
	// Arguments.
	u32 sp = 0x7fff0000, strs = sp;
	u32 ptrs[4096], n = 0;
	ptrs[n++] = (u32)argc - 1;
	for (int k = 1; k < argc; k++) { strs -= strlen(argv[k]) + 1; strcpy((char *)mem + strs, argv[k]); ptrs[n++] = strs; }
	ptrs[n++] = 0;
	for (char **p = envp; *p && n < 4000; p++) { strs -= strlen(*p) + 1; strcpy((char *)mem + strs, *p); ptrs[n++] = strs; }
	ptrs[n++] = 0;
	strs = (strs - 16) & ~15u;
	if (getrandom(mem + strs, 16, 0) < 0) die("no random bytes");
	u32 aux[] = {6, 4096, 25, strs, 17, 100, 0, 0};
	for (unsigned k = 0; k < sizeof aux / 4; k++) ptrs[n++] = aux[k];
	sp = (strs - 4 * n - 64) & ~15u;
	for (u32 k = 0; k < n; k++) st32(sp + 4 * k, ptrs[k]);
	t->r[29] = sp;
	t->pc = entry;
	quantum = 50000;
	for (;;) {
		switch (run(cur, 0)) {
		case STOP_FAULT:
			deliver(cur, 11, 1, fault_addr);
			continue;
		case STOP_SYSCALL: {
			Thread *x = cur;
			int done = 0;
			u32 nr = x->r[2];
			s64 v = sys(x, nr, &done);
			if (trace) fprintf(stderr, "[%d] system call %u(%x, %x, %x, %x) = %lld\n", x->tid, nr, x->r[4], x->r[5], x->r[6], x->r[7], (long long)v);
			if (!done) {
				if (v < 0) {
					int err = (int)-v;
					x->r[2] = err == ENOSYS ? 89 : err == ETIMEDOUT ? 145 : (u32)err;
					x->r[7] = 1;
				} else {
					x->r[2] = (u32)v;
					x->r[7] = 0;
				}
				if ((quantum -= 20) > 0) continue;
			}
			if (done && nr == 4193) continue;
			break;
		}
		}
		cur->linked = 0;
		schedule();
		quantum = 50000;
	}
}
