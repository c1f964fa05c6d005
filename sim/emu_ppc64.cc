// POWER, 64 bits little-endian and 32 bits big-endian (upper halves of registers then mean nothing): the integer instructions compilers use here.
#include "emu.h"
namespace sim {
static inline void setcr(Cpu &c, int f, u32 v) { int s = 28 - 4 * f; c.cr = (c.cr & ~(15u << s)) | v << s; }
static inline int crbit(Cpu &c, int b) { return c.cr >> (31 - b) & 1; }
static inline void putcr(Cpu &c, int b, int v) { c.cr = (c.cr & ~(1u << (31 - b))) | (u32) (v & 1) << (31 - b); }
static inline u64 rotl(u64 v, int n) { n &= 63; return n ? v << n | v >> (64 - n) : v; }
static inline u64 mask(int mb, int me) { u64 a = ~0ULL >> mb, b = ~0ULL << (63 - me); return mb <= me ? a & b : a | b; }
static inline u32 cmps(i64 a, i64 b) { return a < b ? 8 : a > b ? 4 : 2; }
static inline u32 cmpu(u64 a, u64 b) { return a < b ? 8 : a > b ? 4 : 2; }
bool step_ppc64(Cpu &c) {
	u32 i = *(u32 *) c.pc; if (c.g->be) i = __builtin_bswap32(i);
	u64 pc = c.pc; c.pc += 4;
	int op = i >> 26, rt = i >> 21 & 31, ra = i >> 16 & 31, rb = i >> 11 & 31, bf = rt >> 2; bool L = i >> 21 & 1;
	i64 si = (short) i; u64 ui = i & 0xffff; u64 *r = c.r; u64 a0 = ra ? r[ra] : 0;
	auto cond = [&](int bo, int bi) { if (!(bo & 4)) c.ctr--; bool ct = (bo & 4) || ((c.g->w32 ? (u32) c.ctr != 0 : c.ctr != 0) != (bool) (bo & 2)); bool cd = (bo & 16) || crbit(c, bi) == (bo >> 3 & 1); return ct && cd; };
	auto rc = [&](u64 v) { if (i & 1) setcr(c, 0, c.g->w32 ? cmps((int) v, 0) : cmps((i64) v, 0)); };
	switch (op) {
	case 14: r[rt] = a0 + (u64) si; return true;
	case 15: r[rt] = a0 + (u64) (si << 16); return true;
	case 7: r[rt] = r[ra] * (u64) si; return true;
	case 24: r[ra] = r[rt] | ui; return true;
	case 25: r[ra] = r[rt] | ui << 16; return true;
	case 26: r[ra] = r[rt] ^ ui; return true;
	case 27: r[ra] = r[rt] ^ ui << 16; return true;
	case 457: r[rt] = r[rb] ? r[ra] / r[rb] : 0; rc(r[rt]); return true;
	case 459: r[rt] = (u32) r[rb] ? (u32) r[ra] / (u32) r[rb] : 0; rc(r[rt]); return true;
	case 28: r[ra] = r[rt] & ui; setcr(c, 0, c.g->w32 ? cmps((int) r[ra], 0) : cmps((i64) r[ra], 0)); return true;
	case 29: r[ra] = r[rt] & ui << 16; setcr(c, 0, c.g->w32 ? cmps((int) r[ra], 0) : cmps((i64) r[ra], 0)); return true;
	case 10: setcr(c, bf, L ? cmpu(r[ra], ui) : cmpu((u32) r[ra], ui)); return true;
	case 11: setcr(c, bf, L ? cmps((i64) r[ra], si) : cmps((int) r[ra], si)); return true;
	case 32: r[rt] = gld<u32>(c, a0 + (u64) si); return true;
	case 33: { u64 a = r[ra] + (u64) si; r[rt] = gld<u32>(c, a); r[ra] = a; return true; }
	case 34: r[rt] = gld<u8>(c, a0 + (u64) si); return true;
	case 35: { u64 a = r[ra] + (u64) si; r[rt] = gld<u8>(c, a); r[ra] = a; return true; }
	case 36: gst<u32>(c, a0 + (u64) si, (u32) r[rt]); return true;
	case 37: { u64 a = r[ra] + (u64) si; gst<u32>(c, a, (u32) r[rt]); r[ra] = a; return true; }
	case 38: gst<u8>(c, a0 + (u64) si, (u8) r[rt]); return true;
	case 39: { u64 a = r[ra] + (u64) si; gst<u8>(c, a, (u8) r[rt]); r[ra] = a; return true; }
	case 40: r[rt] = gld<u16>(c, a0 + (u64) si); return true;
	case 42: r[rt] = (u64) (i64) gld<short>(c, a0 + (u64) si); return true;
	case 44: gst<u16>(c, a0 + (u64) si, (u16) r[rt]); return true;
	case 58: { u64 o = (u64) (si & ~3LL); switch (i & 3) { case 0: r[rt] = gld<u64>(c, a0 + o); return true; case 1: { u64 a = r[ra] + o; r[rt] = gld<u64>(c, a); r[ra] = a; return true; } case 2: r[rt] = (u64) (i64) gld<int>(c, a0 + o); return true; } return false; }
	case 62: { u64 o = (u64) (si & ~3LL); switch (i & 3) { case 0: gst<u64>(c, a0 + o, r[rt]); return true; case 1: { u64 a = r[ra] + o; gst<u64>(c, a, r[rt]); r[ra] = a; return true; } } return false; }
	case 16: { bool t = cond(rt, ra); if (i & 1) c.lr = pc + 4; if (t) c.pc = (i & 2 ? 0 : pc) + (u64) (si & ~3LL); return true; }
	case 18: { if (i & 1) c.lr = pc + 4; c.pc = (i & 2 ? 0 : pc) + (u64) sx(i & 0x3fffffc, 26); return true; }
	case 19: {
		int xo = i >> 1 & 1023;
		if (xo == 16) { u64 t = c.lr & ~3ULL; bool k = cond(rt, ra); if (i & 1) c.lr = pc + 4; if (k) c.pc = t; return true; }
		if (xo == 528) { bool k = cond(rt, ra); if (i & 1) c.lr = pc + 4; if (k) c.pc = c.ctr & ~3ULL; return true; }
		if (xo == 150) { gbar(c, WF_RR | WF_RW); return true; }	// isync: as after a branch on what was loaded
		if (xo == 0) { setcr(c, bf, c.cr >> (28 - 4 * (ra >> 2)) & 15); return true; }
		int x = crbit(c, ra), y = crbit(c, rb), v;
		switch (xo) { case 289: v = !(x ^ y); break; case 193: v = x ^ y; break; case 449: v = x | y; break; case 257: v = x & y; break; case 33: v = !(x | y); break; case 225: v = !(x & y); break; case 129: v = x & !y; break; case 417: v = x | !y; break; default: return false; }
		putcr(c, rt, v); return true;
	}
	case 20: case 21: {
		int sh = rb, mb = i >> 6 & 31, me = i >> 1 & 31; u32 s = (u32) r[rt]; u64 ro = (u32) (sh ? s << sh | s >> (32 - sh) : s); ro |= ro << 32; u64 m = mask(mb + 32, me + 32);
		r[ra] = op == 21 ? ro & m : (ro & m) | (r[ra] & ~m); rc(r[ra]); return true;
	}
	case 30: {
		int xo = i >> 2 & 7, sh = rb | (i >> 1 & 1) << 5, mb = (i >> 6 & 31) | (i >> 5 & 1) << 5;
		switch (xo) {
		case 0: r[ra] = rotl(r[rt], sh) & mask(mb, 63); break;
		case 1: r[ra] = rotl(r[rt], sh) & mask(0, mb); break;
		case 2: r[ra] = rotl(r[rt], sh) & mask(mb, 63 - sh); break;
		case 3: { u64 m = mask(mb, 63 - sh); r[ra] = (rotl(r[rt], sh) & m) | (r[ra] & ~m); break; }
		default: return false;
		}
		rc(r[ra]); return true;
	}
	case 3: violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return true;
	case 31: break;
	default: return false;
	}
	int xo = i >> 1 & 1023;
	if ((xo & 31) == 15) { int b = i >> 6 & 31; r[rt] = crbit(c, b) ? a0 : r[rb]; return true; }	// isel
	u64 ea = a0 + r[rb];
	switch (xo) {
	case 0: setcr(c, bf, L ? cmps((i64) r[ra], (i64) r[rb]) : cmps((int) r[ra], (int) r[rb])); return true;
	case 32: setcr(c, bf, L ? cmpu(r[ra], r[rb]) : cmpu((u32) r[ra], (u32) r[rb])); return true;
	case 266: r[rt] = r[ra] + r[rb]; rc(r[rt]); return true;
	case 40: r[rt] = r[rb] - r[ra]; rc(r[rt]); return true;
	case 104: r[rt] = 0 - r[ra]; rc(r[rt]); return true;
	case 233: r[rt] = r[ra] * r[rb]; rc(r[rt]); return true;
	case 235: r[rt] = (u64) ((i64) (int) r[ra] * (int) r[rb]); rc(r[rt]); return true;
	case 457: r[rt] = r[rb] ? r[ra] / r[rb] : 0; rc(r[rt]); return true;
	case 459: r[rt] = (u32) r[rb] ? (u32) r[ra] / (u32) r[rb] : 0; rc(r[rt]); return true;
	case 28: r[ra] = r[rt] & r[rb]; rc(r[ra]); return true;
	case 60: r[ra] = r[rt] & ~r[rb]; rc(r[ra]); return true;
	case 444: r[ra] = r[rt] | r[rb]; rc(r[ra]); return true;
	case 316: r[ra] = r[rt] ^ r[rb]; rc(r[ra]); return true;
	case 124: r[ra] = ~(r[rt] | r[rb]); rc(r[ra]); return true;
	case 986: r[ra] = (u64) (i64) (int) r[rt]; rc(r[ra]); return true;
	case 922: r[ra] = (u64) (i64) (short) r[rt]; rc(r[ra]); return true;
	case 954: r[ra] = (u64) (i64) (signed char) r[rt]; rc(r[ra]); return true;
	case 27: r[ra] = (r[rb] & 64) ? 0 : r[rt] << (r[rb] & 63); rc(r[ra]); return true;
	case 539: r[ra] = (r[rb] & 64) ? 0 : r[rt] >> (r[rb] & 63); rc(r[ra]); return true;
	case 24: r[ra] = (r[rb] & 32) ? 0 : (u32) r[rt] << (r[rb] & 31); rc(r[ra]); return true;
	case 536: r[ra] = (r[rb] & 32) ? 0 : (u32) r[rt] >> (r[rb] & 31); rc(r[ra]); return true;
	case 824: r[ra] = (u64) (i64) ((int) r[rt] >> rb); rc(r[ra]); return true;
	case 826: case 827: { int sh = rb | (i >> 1 & 1) << 5; r[ra] = (u64) ((i64) r[rt] >> sh); rc(r[ra]); return true; }
	case 339: case 467: {
		int spr = ra | rb << 5; u64 *p = spr == 8 ? &c.lr : spr == 9 ? &c.ctr : nullptr; if (!p) return false;
		if (xo == 339) r[rt] = *p; else *p = r[rt];
		return true;
	}
	case 19: r[rt] = c.cr; return true;
	case 21: r[rt] = gld<u64>(c, ea); return true;
	case 53: r[rt] = gld<u64>(c, ea); r[ra] = ea; return true;
	case 23: r[rt] = gld<u32>(c, ea); return true;
	case 55: r[rt] = gld<u32>(c, ea); r[ra] = ea; return true;
	case 341: r[rt] = (u64) (i64) gld<int>(c, ea); return true;
	case 373: r[rt] = (u64) (i64) gld<int>(c, ea); r[ra] = ea; return true;
	case 87: r[rt] = gld<u8>(c, ea); return true;
	case 119: r[rt] = gld<u8>(c, ea); r[ra] = ea; return true;
	case 149: gst<u64>(c, ea, r[rt]); return true;
	case 151: gst<u32>(c, ea, (u32) r[rt]); return true;
	case 215: gst<u8>(c, ea, (u8) r[rt]); return true;
	case 247: gst<u8>(c, ea, (u8) r[rt]); r[ra] = ea; return true;
	case 598: gbar(c, (i >> 21 & 3) == 1 ? WF_LW : WF_ALL); return true;	// lwsync, sync
	case 854: gbar(c, WF_WW); return true;	// eieio
	}
	return false;
}
bool step_ppc32(Cpu &c) { bool r = step_ppc64(c); c.pc = (u32) c.pc; return r; }
}
