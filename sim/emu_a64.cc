// AArch64: the integer instructions compilers use here.
#include "emu.h"
namespace sim {
static inline u64 XR(Cpu &c, int n) { return n == 31 ? 0 : c.r[n]; }
static inline u64 XSP(Cpu &c, int n) { return c.r[n]; }
static inline void WR(Cpu &c, int n, u64 v, bool sf) { if (n != 31) c.r[n] = sf ? v : (u32) v; }
static inline void WSP(Cpu &c, int n, u64 v, bool sf) { c.r[n] = sf ? v : (u32) v; }
static bool cond(Cpu &c, int k) {
	bool r; switch (k >> 1) { case 0: r = c.Z; break; case 1: r = c.C; break; case 2: r = c.N; break; case 3: r = c.V; break; case 4: r = c.C && !c.Z; break; case 5: r = c.N == c.V; break; case 6: r = c.N == c.V && !c.Z; break; default: return true; }
	return k & 1 ? !r : r;
}
static u64 addc(Cpu &c, u64 a, u64 b, bool ci, bool sf, bool s) {
	if (sf) { u64 r = a + b + ci; if (s) { c.N = (i64) r < 0; c.Z = !r; c.C = ci ? r <= a : r < a; c.V = (~(a ^ b) & (a ^ r)) >> 63; } return r; }
	u32 x = (u32) a, y = (u32) b; u32 r = x + y + ci; if (s) { c.N = (int) r < 0; c.Z = !r; c.C = ci ? r <= x : r < x; c.V = (~(x ^ y) & (x ^ r)) >> 31; } return r;
}
static u64 shift(u64 v, int t, int n, bool sf) {
	if (!sf) { u32 x = (u32) v; n &= 31; switch (t) { case 0: return x << n; case 1: return x >> n; case 2: return (u32) ((int) x >> n); default: return n ? (x >> n) | (x << (32 - n)) : x; } }
	n &= 63; switch (t) { case 0: return v << n; case 1: return v >> n; case 2: return (u64) ((i64) v >> n); default: return n ? (v >> n) | (v << (64 - n)) : v; }
}
static u64 extend(u64 v, int o, int sh) {
	switch (o) { case 0: v = (u8) v; break; case 1: v = (u16) v; break; case 2: v = (u32) v; break; case 3: break; case 4: v = (u64) (i64) (signed char) v; break; case 5: v = (u64) (i64) (short) v; break; case 6: v = (u64) (i64) (int) v; break; }
	return v << sh;
}
static bool bitmask(bool sf, int N, int imms, int immr, u64 *w, u64 *t) {
	int len = 31 - __builtin_clz((unsigned) ((N << 6) | (~imms & 63)) | 0); if (((N << 6) | (~imms & 63)) == 0 || len < 1) return false;
	int lv = (1 << len) - 1, S1 = imms & lv, R1 = immr & lv, diff = S1 - R1, es = 1 << len;
	u64 m = es == 64 ? ~0ULL : (1ULL << es) - 1;
	u64 we = S1 + 1 >= 64 ? ~0ULL : (1ULL << (S1 + 1)) - 1; int d = diff & lv; u64 te = d + 1 >= 64 ? ~0ULL : (1ULL << (d + 1)) - 1;
	u64 ro = R1 ? ((we >> R1) | (we << (es - R1))) & m : we;
	u64 ww = 0, tt = 0; for (int i = 0; i < 64; i += es) { ww |= ro << i; tt |= (te & m) << i; }
	*w = sf ? ww : (u32) ww; *t = sf ? tt : (u32) tt; return true;
}
static bool ldst(Cpu &c, int size, int opc, int rt, u64 a, bool rel = false) {
	if (opc == 0) { u64 v = XR(c, rt); switch (size) { case 0: gst<u8>(c, a, (u8) v, rel); break; case 1: gst<u16>(c, a, (u16) v, rel); break; case 2: gst<u32>(c, a, (u32) v, rel); break; case 3: gst<u64>(c, a, v, rel); break; } return true; }
	u64 v; switch (size) { case 0: v = gld<u8>(c, a, rel); break; case 1: v = gld<u16>(c, a, rel); break; case 2: v = gld<u32>(c, a, rel); break; default: v = gld<u64>(c, a, rel); }
	if (opc == 1) { WR(c, rt, v, true); return true; }
	if (size == 3) return true;	// prefetch
	int bits = 8 << size; WR(c, rt, (u64) sx(v, bits), opc == 2); return true;
}
bool step_a64(Cpu &c) {
	u32 i = *(u32 *) c.pc; u64 pc = c.pc; c.pc += 4;
	int rd = i & 31, rn = i >> 5 & 31, rm = i >> 16 & 31; bool sf = i >> 31;
	// data processing, immediate
	if ((i & 0x1f000000) == 0x10000000) { u64 im = (u64) sx(((i >> 5 & 0x7ffff) << 2) | (i >> 29 & 3), 21); WR(c, rd, i >> 31 ? (pc & ~4095ULL) + (im << 12) : pc + im, true); return true; }
	if ((i & 0x1f800000) == 0x11000000) { u64 im = i >> 10 & 0xfff; if (i >> 22 & 1) im <<= 12; bool sub = i >> 30 & 1, s = i >> 29 & 1; u64 a = XSP(c, rn); u64 r = addc(c, a, sub ? ~im : im, sub, sf, s); if (s) WR(c, rd, r, sf); else WSP(c, rd, r, sf); return true; }
	if ((i & 0x1f800000) == 0x12000000) { u64 w, t; if (!bitmask(sf, i >> 22 & 1, i >> 10 & 63, i >> 16 & 63, &w, &t)) return false; int op = i >> 29 & 3; u64 a = XR(c, rn), r = op == 1 ? a | w : op == 2 ? a ^ w : a & w; if (!sf) r = (u32) r; if (op == 3) { c.N = sf ? (i64) r < 0 : (int) r < 0; c.Z = !r; c.C = c.V = false; WR(c, rd, r, sf); } else WSP(c, rd, r, sf); return true; }
	if ((i & 0x1f800000) == 0x12800000) { int op = i >> 29 & 3, hw = (i >> 21 & 3) * 16; u64 im = (u64) (i >> 5 & 0xffff) << hw; if (op == 0) WR(c, rd, ~im, sf); else if (op == 2) WR(c, rd, im, sf); else if (op == 3) WR(c, rd, (XR(c, rd) & ~(0xffffULL << hw)) | im, sf); else return false; return true; }
	if ((i & 0x1f800000) == 0x13000000) {
		int op = i >> 29 & 3, immr = i >> 16 & 63, imms = i >> 10 & 63; u64 w, t; if (!bitmask(sf, i >> 22 & 1, imms, immr, &w, &t)) return false;
		u64 a = XR(c, rn), dst = op == 1 ? XR(c, rd) : 0, bot = (dst & ~w) | (shift(a, 3, immr, sf) & w), top;
		if (op == 0) top = (a >> imms & 1) ? ~0ULL : 0; else top = dst;
		WR(c, rd, (top & ~t) | (bot & t), sf); return true;
	}
	if ((i & 0x1f800000) == 0x13800000) { int l = i >> 10 & 63; u64 hi = XR(c, rn), lo = XR(c, rm); u64 r; if (sf) r = l ? (lo >> l) | (hi << (64 - l)) : lo; else r = l ? ((u32) lo >> l) | ((u32) hi << (32 - l)) : (u32) lo; WR(c, rd, r, sf); return true; }
	// branches
	if ((i & 0x7c000000) == 0x14000000) { if (i >> 31) c.r[30] = pc + 4; c.pc = pc + (u64) (sx(i & 0x3ffffff, 26) << 2); return true; }
	if ((i & 0xff000010) == 0x54000000) { if (cond(c, i & 15)) c.pc = pc + (u64) (sx(i >> 5 & 0x7ffff, 19) << 2); return true; }
	if ((i & 0x7e000000) == 0x34000000) { u64 v = XR(c, rd); if (!sf) v = (u32) v; if ((v != 0) == (bool) (i >> 24 & 1)) c.pc = pc + (u64) (sx(i >> 5 & 0x7ffff, 19) << 2); return true; }
	if ((i & 0x7e000000) == 0x36000000) { int b = (i >> 31) << 5 | (i >> 19 & 31); if ((XR(c, rd) >> b & 1) == (i >> 24 & 1)) c.pc = pc + (u64) (sx(i >> 5 & 0x3fff, 14) << 2); return true; }
	if ((i & 0xff9ffc1f) == 0xd61f0000) { u64 t = XR(c, rn); if (i >> 21 & 1) c.r[30] = pc + 4; c.pc = t; return true; }
	if ((i & 0xfffff01f) == 0xd503201f) return true;	// hint
	if ((i & 0xfffff09f) == 0xd503309f || (i & 0xfffff0ff) == 0xd50330df || (i & 0xfffff0ff) == 0xd50330bf) {	// dsb, isb, dmb
		int op = i >> 5 & 7, crm = i >> 8 & 15; if (op == 6) { gbar(c, WF_RR | WF_RW); return true; }	// isb: as after a branch on what was loaded
		gbar(c, (crm & 3) == 3 ? WF_ALL : (crm & 3) == 2 ? WF_WW : (crm & 3) == 1 ? WF_RR | WF_RW : 0);
		return true;
	}
	if ((i & 0xffffffe0) == 0xd53bd040) { WR(c, rd, c.tp, true); return true; }
	if ((i & 0xffe0001f) == 0xd4200000) { violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); }
	// loads and stores
	if ((i & 0x3b000000) == 0x39000000) { int size = i >> 30; if (i >> 26 & 1) return false; return ldst(c, size, i >> 22 & 3, rd, XSP(c, rn) + ((u64) (i >> 10 & 0xfff) << size)); }
	if ((i & 0x3b200000) == 0x38000000) {
		if (i >> 26 & 1) return false;
		int size = i >> 30, m = i >> 10 & 3; u64 a = XSP(c, rn); i64 im = sx(i >> 12 & 0x1ff, 9);
		if (m == 2) return false;
		u64 at = m == 1 ? a : a + (u64) im; bool ok = ldst(c, size, i >> 22 & 3, rd, at); if (m & 1) c.r[rn] = a + (u64) im; return ok;
	}
	if ((i & 0x3b200c00) == 0x38200800) { if (i >> 26 & 1) return false; int size = i >> 30, o = i >> 13 & 7; return ldst(c, size, i >> 22 & 3, rd, XSP(c, rn) + extend(XR(c, rm), o, (i >> 12 & 1) ? size : 0)); }
	if ((i & 0x3b000000) == 0x18000000) { int opc = i >> 30; if (i >> 26 & 1 || opc == 3) return false; u64 a = pc + (u64) (sx(i >> 5 & 0x7ffff, 19) << 2); WR(c, rd, opc == 0 ? gld<u32>(c, a) : opc == 1 ? gld<u64>(c, a) : (u64) (i64) gld<int>(c, a), true); return true; }
	if ((i & 0x3a000000) == 0x28000000) {
		if (i >> 26 & 1) return false;
		int opc = i >> 30, m = i >> 23 & 3, rt2 = i >> 10 & 31; bool ld = i >> 22 & 1; int sz = opc == 2 ? 8 : 4; if (opc == 3 || m == 0) return false;
		u64 a = XSP(c, rn); i64 im = sx(i >> 15 & 127, 7) * sz; u64 at = m == 1 ? a : a + (u64) im;
		if (ld) { u64 x = sz == 8 ? gld<u64>(c, at) : opc == 1 ? (u64) (i64) gld<int>(c, at) : gld<u32>(c, at), y = sz == 8 ? gld<u64>(c, at + 8) : opc == 1 ? (u64) (i64) gld<int>(c, at + 4) : gld<u32>(c, at + 4); WR(c, rd, x, true); WR(c, rt2, y, true); }
		else if (sz == 8) { gst<u64>(c, at, XR(c, rd)); gst<u64>(c, at + 8, XR(c, rt2)); } else { gst<u32>(c, at, (u32) XR(c, rd)); gst<u32>(c, at + 4, (u32) XR(c, rt2)); }
		if (m & 1) c.r[rn] = a + (u64) im;
		return true;
	}
	if ((i & 0x3ffffc00) == 0x38bfc000) return ldst(c, i >> 30, 1, rd, XSP(c, rn), true);	// ldapr
	if ((i & 0x3fbf8000) == 0x089f8000) {	// ldar, stlr
		bool ld = i >> 22 & 1; int size = i >> 30; return ldst(c, size, ld ? 1 : 0, rd, XSP(c, rn), true);
	}
	// data processing, registers
	if ((i & 0x1f000000) == 0x0a000000) {
		int op = i >> 29 & 3; u64 b = shift(XR(c, rm), i >> 22 & 3, i >> 10 & 63, sf); if (i >> 21 & 1) b = ~b; u64 a = XR(c, rn), r = op == 1 ? a | b : op == 2 ? a ^ b : a & b; if (!sf) r = (u32) r;
		if (op == 3) { c.N = sf ? (i64) r < 0 : (int) r < 0; c.Z = !r; c.C = c.V = false; } WR(c, rd, r, sf); return true;
	}
	if ((i & 0x1f200000) == 0x0b000000) { bool sub = i >> 30 & 1, s = i >> 29 & 1; u64 b = shift(XR(c, rm), i >> 22 & 3, i >> 10 & 63, sf); WR(c, rd, addc(c, XR(c, rn), sub ? ~b : b, sub, sf, s), sf); return true; }
	if ((i & 0x1fe00000) == 0x0b200000) { bool sub = i >> 30 & 1, s = i >> 29 & 1; u64 b = extend(XR(c, rm), i >> 13 & 7, i >> 10 & 7); u64 r = addc(c, XSP(c, rn), sub ? ~b : b, sub, sf, s); if (s) WR(c, rd, r, sf); else WSP(c, rd, r, sf); return true; }
	if ((i & 0x1fe00000) == 0x1a800000) { bool op = i >> 30 & 1, o2 = i >> 10 & 1; u64 r; if (cond(c, i >> 12 & 15)) r = XR(c, rn); else { r = XR(c, rm); if (op) r = ~r; if (o2) r++; } WR(c, rd, r, sf); return true; }
	if ((i & 0x1fe00010) == 0x1a400000) { if (cond(c, i >> 12 & 15)) { u64 b = i >> 11 & 1 ? (u64) rm : XR(c, rm); bool sub = i >> 30 & 1; addc(c, XR(c, rn), sub ? ~b : b, sub, sf, true); } else { c.N = i >> 3 & 1; c.Z = i >> 2 & 1; c.C = i >> 1 & 1; c.V = i & 1; } return true; }
	if ((i & 0x7f000000) == 0x1b000000 && (i >> 21 & 7) == 0) { u64 p = XR(c, rn) * XR(c, rm), a = XR(c, i >> 10 & 31); WR(c, rd, i >> 15 & 1 ? a - p : a + p, sf); return true; }
	if ((i & 0xff600000) == 0x9b200000) { bool u = i >> 23 & 1; u64 p = u ? (u64) (u32) XR(c, rn) * (u32) XR(c, rm) : (u64) ((i64) (int) XR(c, rn) * (int) XR(c, rm)); u64 a = XR(c, i >> 10 & 31); WR(c, rd, i >> 15 & 1 ? a - p : a + p, true); return true; }
	if ((i & 0x7fe0fc00) == 0x1ac00800) { u64 a = XR(c, rn), b = XR(c, rm); if (!sf) { a = (u32) a; b = (u32) b; } WR(c, rd, b ? a / b : 0, sf); return true; }	// udiv
	if ((i & 0x7fe0f000) == 0x1ac02000) { WR(c, rd, shift(XR(c, rn), i >> 10 & 3, (int) XR(c, rm), sf), sf); return true; }
	return false;
}
}
