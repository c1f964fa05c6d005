// ARM, 32 bits (ARMv7, A32 encoding), little-endian.
#include "emu.h"
namespace sim {
namespace {
bool holds(Cpu &c, int k) {
	bool t;
	switch (k >> 1) { case 0: t = c.Z; break; case 1: t = c.C; break; case 2: t = c.N; break; case 3: t = c.V; break; case 4: t = c.C && !c.Z; break; case 5: t = c.N == c.V; break; case 6: t = !c.Z && c.N == c.V; break; default: return true; }
	return k & 1 ? !t : t;
}
u32 ror32(u32 v, int n) { n &= 31; return n ? v >> n | v << (32 - n) : v; }
// shifted register operand; sets the carry it would give
u32 shifted(u32 v, int type, u32 n, bool imm, bool &co) {
	if (imm) { if (!n && type == 0) return v; if (!n && type == 3) { u32 r = v >> 1 | (u32) co << 31; co = v & 1; return r; } if (!n) n = 32; }
	else if (!n) return v;
	switch (type) {
	case 0: if (n > 32) { co = false; return 0; } co = v >> (32 - n) & 1; return n == 32 ? 0 : v << n;
	case 1: if (n > 32) { co = false; return 0; } co = v >> (n - 1) & 1; return n == 32 ? 0 : v >> n;
	case 2: if (n >= 32) { co = v >> 31; return (u32) ((int) v >> 31); } co = v >> (n - 1) & 1; return (u32) ((int) v >> n);
	default: { u32 r = ror32(v, (int) n); co = r >> 31; return r; }
	}
}
}
bool step_a32(Cpu &c) {
	u32 i = *(u32 *) c.pc; u64 pc = c.pc; c.pc += 4;
	auto R = [&](int n) { return n == 15 ? (u32) pc + 8 : (u32) c.r[n]; };
	auto put = [&](int n, u32 v) { if (n == 15) c.pc = v & ~1u; else c.r[n] = v; return true; };
	auto nz = [&](u32 v) { c.N = v >> 31; c.Z = v == 0; };
	auto trap = [&] { violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return false; };
	int rn = i >> 16 & 15, rd = i >> 12 & 15, rs = i >> 8 & 15, rm = i & 15;
	if (i >> 28 == 15) {
		if ((i & 0xfffffff0) == 0xf57ff050 || (i & 0xfffffff0) == 0xf57ff040) { int o = i & 15; gbar(c, o == 10 || o == 14 || o == 6 || o == 2 ? WF_WW : WF_ALL); return true; }	// dmb, dsb; st only orders stores
		if ((i & 0xfffffff0) == 0xf57ff060 || (i & 0xfd70f000) == 0xf550f000) return true;	// isb, pld
		return false;
	}
	bool exec = holds(c, (int) (i >> 28));
	int cls = i >> 25 & 7;
	if ((i & 0x0ff000f0) == 0x07f000f0) return exec ? trap() : true;
	if (!exec) return true;
	if (cls == 0 && (i & 0x90) == 0x90) {	// multiplies and the extra loads and stores
		int op = i >> 5 & 3;
		if (!op) {
			switch (i >> 21 & 15) {
			case 0: { u32 v = R(rm) * R(rs); if (i >> 20 & 1) nz(v); return put(rn, v); } case 1: { u32 v = R(rm) * R(rs) + R(rd); if (i >> 20 & 1) nz(v); return put(rn, v); } case 3: return put(rn, R(rd) - R(rm) * R(rs));
			case 4: { u64 p = (u64) R(rm) * R(rs); put(rd, (u32) p); return put(rn, (u32) (p >> 32)); } case 6: { i64 p = (i64) (int) R(rm) * (int) R(rs); put(rd, (u32) p); return put(rn, (u32) (p >> 32)); }
			}
			return false;	// exclusives are not used
		}
		bool P = i >> 24 & 1, U = i >> 23 & 1, I = i >> 22 & 1, W = i >> 21 & 1, L = i >> 20 & 1;
		u32 off = I ? (i >> 4 & 0xf0) | (i & 15) : R(rm), b = R(rn), a = P ? (U ? b + off : b - off) : b, wb = U ? b + off : b - off; u32 v = 0;
		if (L) { v = op == 1 ? gld<u16>(c, a) : op == 2 ? (u32) (int) gld<signed char>(c, a) : (u32) (int) gld<short>(c, a); }
		else if (op == 1) gst<u16>(c, a, (u16) R(rd));
		else if (op == 2) { u32 x = gld<u32>(c, a), y = gld<u32>(c, a + 4); put(rd, x); put(rd + 1, y); }	// ldrd
		else { gst<u32>(c, a, R(rd)); gst<u32>(c, a + 4, R(rd + 1)); }
		if (!P || W) put(rn, wb);
		if (L) put(rd, v);
		return true;
	}
	if (cls < 2) {
		int op = i >> 21 & 15; bool S = i >> 20 & 1;
		if ((op & 12) == 8 && !S) {
			if (cls == 1) {
				u32 im = (i >> 4 & 0xf000) | (i & 0xfff);
				if (op == 8) return put(rd, im); if (op == 10) return put(rd, ((u32) c.r[rd] & 0xffff) | im << 16);
				return (i & 0x0fffff00) == 0x0320f000;	// hints
			}
			if ((i & 0x0ffffff0) == 0x012fff10) { c.pc = R(rm) & ~1u; return true; }
			if ((i & 0x0ffffff0) == 0x012fff30) { u32 t = R(rm); c.r[14] = (u32) pc + 4; c.pc = t & ~1u; return true; }
			if ((i & 0x0fff0ff0) == 0x016f0f10) { u32 v = R(rm); return put(rd, v ? (u32) __builtin_clz(v) : 32); }
			return false;
		}
		bool co = c.C; u32 b;
		if (cls == 1) { int rot = (int) rs * 2; b = ror32(i & 0xff, rot); if (rot) co = b >> 31; }
		else if (i & 0x10) b = shifted(R(rm), i >> 5 & 3, R(rs) & 0xff, false, co);
		else b = shifted(R(rm), i >> 5 & 3, i >> 7 & 31, true, co);
		u32 a = R(rn), r = 0; bool ar = false, C2 = false, V2 = false;
		auto add = [&](u32 x, u32 y, u32 ci) { u64 s = (u64) x + y + ci; r = (u32) s; ar = true; C2 = s >> 32 & 1; V2 = (~(x ^ y) & (x ^ r)) >> 31; };
		switch (op) {
		case 0: case 8: r = a & b; break; case 1: case 9: r = a ^ b; break; case 2: case 10: add(a, ~b, 1); break; case 3: add(b, ~a, 1); break;
		case 4: case 11: add(a, b, 0); break; case 5: add(a, b, c.C); break; case 6: add(a, ~b, c.C); break; case 7: add(b, ~a, c.C); break;
		case 12: r = a | b; break; case 13: r = b; break; case 14: r = a & ~b; break; default: r = ~b;
		}
		if (S) { if (rd == 15) return false; nz(r); if (ar) { c.C = C2; c.V = V2; } else c.C = co; }
		if ((op & 12) != 8) put(rd, r);
		return true;
	}
	if (cls == 3 && (i & 0x10)) {	// media
		switch (i >> 20 & 0xff) {
		case 0x6a: case 0x6b: case 0x6e: case 0x6f: {
			if ((i & 0xf0) != 0x70) { if ((i & 0x0fff0ff0) == 0x06bf0f30) return put(rd, __builtin_bswap32(R(rm))); return false; }
			u32 v = ror32(R(rm), (int) (i >> 10 & 3) * 8); int o = i >> 20 & 7;
			v = o == 2 ? (u32) (int) (signed char) v : o == 3 ? (u32) (int) (short) v : o == 6 ? v & 0xff : v & 0xffff;
			return put(rd, v + (rn == 15 ? 0 : R(rn)));
		}
		case 0x71: case 0x73: { if ((i & 0xf0f0) != 0xf010) return false; u32 n = R(rm), d = R(rs); return put(rn, !d ? 0 : (i >> 20 & 0xff) == 0x73 ? n / d : n == 0x80000000u && d == ~0u ? n : (u32) ((int) n / (int) d)); }
		case 0x7a: case 0x7b: case 0x7e: case 0x7f: { if ((i & 0x70) != 0x50) return false; int lsb = i >> 7 & 31, w = (int) (i >> 16 & 31) + 1; u64 v = (u64) R(rm) >> lsb & ((1ULL << w) - 1); return put(rd, i >> 22 & 1 ? (u32) v : (u32) sx(v, w)); }
		case 0x7c: case 0x7d: { if ((i & 0x70) != 0x10) return false; int lsb = i >> 7 & 31, msb = i >> 16 & 31; u32 m = (u32) (((1ULL << (msb - lsb + 1)) - 1) << lsb); return put(rd, ((u32) c.r[rd] & ~m) | (rm == 15 ? 0 : R(rm) << lsb & m)); }
		}
		return false;
	}
	if (cls == 2 || cls == 3) {
		bool P = i >> 24 & 1, U = i >> 23 & 1, B = i >> 22 & 1, W = i >> 21 & 1, L = i >> 20 & 1, co = c.C;
		u32 off = cls == 2 ? i & 0xfff : shifted(R(rm), i >> 5 & 3, i >> 7 & 31, true, co), b = R(rn), a = P ? (U ? b + off : b - off) : b, wb = U ? b + off : b - off, v = 0;
		if (L) v = B ? gld<u8>(c, a) : gld<u32>(c, a); else if (B) gst<u8>(c, a, (u8) R(rd)); else gst<u32>(c, a, R(rd));
		if (!P || W) put(rn, wb);
		if (L) put(rd, v);
		return true;
	}
	if (cls == 4) {
		bool P = i >> 24 & 1, U = i >> 23 & 1, W = i >> 21 & 1, L = i >> 20 & 1; if (i >> 22 & 1) return false;
		int n = __builtin_popcount(i & 0xffff); u32 b = R(rn), a = U ? b + (P ? 4 : 0) : b - 4 * (u32) n + (P ? 0 : 4), end = U ? b + 4 * (u32) n : b - 4 * (u32) n;
		bool in = i >> rn & 1;
		for (int k = 0; k < 16; k++) if (i >> k & 1) { if (L) put(k, gld<u32>(c, a)); else gst<u32>(c, a, R(k)); a += 4; }
		if (W && !(L && in)) put(rn, end);
		return true;
	}
	if (cls == 5) { u32 t = (u32) pc + 8 + (u32) (int) sx(i & 0xffffff, 24) * 4; if (i >> 24 & 1) c.r[14] = (u32) pc + 4; c.pc = t; return true; }
	if ((i & 0x0fff0fff) == 0x0e1d0f70) return put(rd, W32_TP);	// the thread pointer
	return false;
}
}
