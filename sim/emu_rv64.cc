// RISC-V, 64 and 32 bits (registers then hold sign-extended words), integer instructions without the compressed ones.
#include "emu.h"
namespace sim {
template <bool W> static bool step(Cpu &c) {
	u32 i = *(u32 *) c.pc; u64 pc = c.pc; c.pc += 4; c.r[0] = 0;
	int op = i & 127, rd = i >> 7 & 31, f3 = i >> 12 & 7, rs1 = i >> 15 & 31, rs2 = i >> 20 & 31, f7 = i >> 25;
	u64 a = c.r[rs1], b = c.r[rs2]; i64 im = (i64) (int) i >> 20;
	const int SM = W ? 31 : 63; auto shr = [&](u64 v, int n) { return W ? (u64) ((u32) v >> n) : v >> n; };
	auto put = [&](u64 v) { if (rd) c.r[rd] = W ? (u64) (i64) (int) v : v; return true; };
	switch (op) {
	case 0x37: return put((u64) (i64) (int) (i & 0xfffff000));
	case 0x17: return put(pc + (u64) (i64) (int) (i & 0xfffff000));
	case 0x6f: { u64 o = (u64) sx((i >> 31 & 1) << 20 | (i >> 12 & 0xff) << 12 | (i >> 20 & 1) << 11 | (i >> 21 & 0x3ff) << 1, 21); put(pc + 4); c.pc = pc + o; return true; }
	case 0x67: { u64 t = (a + (u64) im) & ~1ULL; put(pc + 4); c.pc = t; return true; }
	case 0x63: {
		u64 o = (u64) sx((i >> 31 & 1) << 12 | (i >> 7 & 1) << 11 | (i >> 25 & 0x3f) << 5 | (i >> 8 & 15) << 1, 13); bool t;
		switch (f3) { case 0: t = a == b; break; case 1: t = a != b; break; case 4: t = (i64) a < (i64) b; break; case 5: t = (i64) a >= (i64) b; break; case 6: t = a < b; break; case 7: t = a >= b; break; default: return false; }
		if (t) c.pc = pc + o;
		return true;
	}
	case 0x03: {
		u64 at = a + (u64) im;
		switch (f3) { case 0: return put((u64) (i64) gld<signed char>(c, at)); case 1: return put((u64) (i64) gld<short>(c, at)); case 2: return put((u64) (i64) gld<int>(c, at)); case 3: return put(gld<u64>(c, at)); case 4: return put(gld<u8>(c, at)); case 5: return put(gld<u16>(c, at)); case 6: return put(gld<u32>(c, at)); default: return false; }
	}
	case 0x23: {
		u64 at = a + (u64) sx((i >> 25) << 5 | (i >> 7 & 31), 12);
		switch (f3) { case 0: gst<u8>(c, at, (u8) b); return true; case 1: gst<u16>(c, at, (u16) b); return true; case 2: gst<u32>(c, at, (u32) b); return true; case 3: gst<u64>(c, at, b); return true; default: return false; }
	}
	case 0x13:
		switch (f3) {
		case 0: return put(a + (u64) im); case 1: return put(a << (i >> 20 & SM)); case 2: return put((i64) a < im); case 3: return put(a < (u64) im); case 4: return put(a ^ (u64) im);
		case 5: return put(i >> 30 & 1 ? (u64) ((i64) a >> (i >> 20 & SM)) : shr(a, i >> 20 & SM)); case 6: return put(a | (u64) im); default: return put(a & (u64) im);
		}
	case 0x1b: if (W) return false;
		switch (f3) { case 0: return put((u64) (i64) (int) (a + (u64) im)); case 1: return put((u64) (i64) (int) ((u32) a << rs2)); case 5: return put(i >> 30 & 1 ? (u64) (i64) ((int) a >> rs2) : (u64) (i64) (int) ((u32) a >> rs2)); default: return false; }
	case 0x33:
		if (f7 == 1) { switch (f3) { case 0: return put(a * b); case 5: return put(W ? ((u32) b ? (u32) a / (u32) b : ~0u) : b ? a / b : ~0ULL); case 3: return put(W ? (u64) (u32) a * (u32) b >> 32 : (u64) ((unsigned __int128) a * b >> 64)); default: return false; } }
		if (f7 & ~0x20) return false;
		switch (f3) {
		case 0: return put(f7 ? a - b : a + b); case 1: return put(a << (b & SM)); case 2: return put((i64) a < (i64) b); case 3: return put(a < b); case 4: return put(a ^ b);
		case 5: return put(f7 ? (u64) ((i64) a >> (b & SM)) : shr(a, b & SM)); case 6: return put(a | b); default: return put(a & b);
		}
	case 0x3b: if (W) return false;
		if (f7 == 1) return f3 == 0 ? put((u64) (i64) (int) (a * b)) : f3 == 5 ? put((u64) (i64) (int) ((u32) b ? (u32) a / (u32) b : ~0u)) : false;
		switch (f3) { case 0: return put((u64) (i64) (int) (f7 ? a - b : a + b)); case 1: return put((u64) (i64) (int) ((u32) a << (b & 31))); case 5: return put(f7 ? (u64) (i64) ((int) a >> (b & 31)) : (u64) (i64) (int) ((u32) a >> (b & 31))); default: return false; }
	case 0x0f: {
		if (f3) return true;
		int pr = i >> 24 & 15, su = i >> 20 & 15;	// i o r w
		if (i >> 28 == 8) { gbar(c, WF_LW); return true; }	// fence.tso
		gbar(c, (pr & 2 && su & 2 ? WF_RR : 0) | (pr & 2 && su & 1 ? WF_RW : 0) | (pr & 1 && su & 1 ? WF_WW : 0) | (pr & 1 && su & 2 ? WF_WR : 0));
		return true;
	}
	case 0x73: if (i == 0x00100073) violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return false;
	}
	return false;
}
bool step_rv64(Cpu &c) { return step<false>(c); }
bool step_rv32(Cpu &c) { bool r = step<true>(c); c.pc = (u32) c.pc; return r; }
}
