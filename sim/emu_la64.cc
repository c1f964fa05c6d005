// LoongArch, 64 bits, the integer instructions compilers use for the operations.
#include "emu.h"
namespace sim {
bool step_la64(Cpu &c) {
	u32 i = *(u32 *) c.pc; u64 pc = c.pc; c.pc += 4; c.r[0] = 0;
	int rd = i & 31, rj = i >> 5 & 31, rk = i >> 10 & 31; u64 a = c.r[rj], b = c.r[rk], d = c.r[rd];
	auto put = [&](u64 v) { if (rd) c.r[rd] = v; return true; };
	auto w = [](u64 v) { return (u64) (i64) (int) v; };
	i64 s12 = sx(i >> 10 & 0xfff, 12); u64 u12 = i >> 10 & 0xfff;
	i64 o16 = sx(i >> 10 & 0xffff, 16) * 4, o21 = sx((u64) (i & 31) << 16 | (i >> 10 & 0xffff), 21) * 4, o26 = sx((u64) (i & 0x3ff) << 16 | (i >> 10 & 0xffff), 26) * 4;
	auto br = [&](bool t, i64 o) { if (t) c.pc = pc + (u64) o; return true; };
	switch (i >> 26) {
	case 0x10: return br(a == 0, o21); case 0x11: return br(a != 0, o21);
	case 0x13: { u64 t = a + (u64) o16; put(pc + 4); c.pc = t; return true; }
	case 0x14: return br(true, o26); case 0x15: c.r[1] = pc + 4; return br(true, o26);
	case 0x16: return br(a == d, o16); case 0x17: return br(a != d, o16); case 0x18: return br((i64) a < (i64) d, o16); case 0x19: return br((i64) a >= (i64) d, o16); case 0x1a: return br(a < d, o16); case 0x1b: return br(a >= d, o16);
	case 4: return put(a + ((u64) sx(i >> 10 & 0xffff, 16) << 16));	// addu16i.d
	}
	switch (i >> 25) {
	case 0x0a: return put((u64) (i64) (int) ((i >> 5 & 0xfffff) << 12));	// lu12i.w
	case 0x0b: return put((d & 0xffffffff) | (u64) sx(i >> 5 & 0xfffff, 20) << 32);	// lu32i.d
	case 0x0c: return put(pc + (u64) (sx(i >> 5 & 0xfffff, 20) << 2));	// pcaddi
	case 0x0d: return put((pc + (u64) (sx(i >> 5 & 0xfffff, 20) << 12)) & ~0xfffULL);	// pcalau12i
	case 0x0e: return put(pc + (u64) (sx(i >> 5 & 0xfffff, 20) << 12));	// pcaddu12i
	}
	switch (i >> 24) {
	case 0x24: return put((u64) (i64) gld<int>(c, a + (u64) (sx(i >> 10 & 0x3fff, 14) * 4)));	// ldptr.w
	case 0x25: gst<u32>(c, a + (u64) (sx(i >> 10 & 0x3fff, 14) * 4), (u32) d); return true;
	case 0x26: return put(gld<u64>(c, a + (u64) (sx(i >> 10 & 0x3fff, 14) * 4)));
	case 0x27: gst<u64>(c, a + (u64) (sx(i >> 10 & 0x3fff, 14) * 4), d); return true;
	}
	u64 at = a + (u64) s12;
	switch (i >> 22) {
	case 0x08: return put((i64) a < s12); case 0x09: return put(a < (u64) s12);
	case 0x0a: return put(w(a + (u64) s12)); case 0x0b: return put(a + (u64) s12);
	case 0x0c: return put((a & 0xfffffffffffffULL) | u12 << 52);	// lu52i.d
	case 0x0d: return put(a & u12); case 0x0e: return put(a | u12); case 0x0f: return put(a ^ u12);
	case 0xa0: return put((u64) (i64) gld<signed char>(c, at)); case 0xa1: return put((u64) (i64) gld<short>(c, at)); case 0xa2: return put((u64) (i64) gld<int>(c, at)); case 0xa3: return put(gld<u64>(c, at));
	case 0xa4: gst<u8>(c, at, (u8) d); return true; case 0xa5: gst<u16>(c, at, (u16) d); return true; case 0xa6: gst<u32>(c, at, (u32) d); return true; case 0xa7: gst<u64>(c, at, d); return true;
	case 0xa8: return put(gld<u8>(c, at)); case 0xa9: return put(gld<u16>(c, at)); case 0xaa: return put(gld<u32>(c, at));
	case 0x02: case 0x03: {	// bstrins.d, bstrpick.d
		int m = i >> 16 & 63, l = i >> 10 & 63; if (m < l) return false;
		u64 mask = m - l == 63 ? ~0ULL : (1ULL << (m - l + 1)) - 1;
		return put(i >> 22 & 1 ? a >> l & mask : (d & ~(mask << l)) | (a & mask) << l);
	}
	}
	if (i >> 21 == 3) {	// bstrins.w, bstrpick.w
		int m = i >> 16 & 31, l = i >> 10 & 31; if (m < l) return false;
		u64 mask = (1ULL << (m - l + 1)) - 1;
		return put(w(i >> 15 & 1 ? (u32) a >> l & mask : ((u32) d & ~(mask << l)) | (a & mask) << l));
	}
	if (i >> 16 == 0x41) return put(a << (i >> 10 & 63));
	if (i >> 16 == 0x45) return put(a >> (i >> 10 & 63));
	if (i >> 16 == 0x49) return put((u64) ((i64) a >> (i >> 10 & 63)));
	if (i >> 17 == 2) { int s = (i >> 15 & 3) + 1; return put(w((a << s) + b)); }
	if (i >> 17 == 0x16) { int s = (i >> 15 & 3) + 1; return put((a << s) + b); }	// alsl.d
	switch (i >> 15) {
	case 0x20: return put(w(a + b)); case 0x21: return put(a + b); case 0x22: return put(w(a - b)); case 0x23: return put(a - b);
	case 0x24: return put((i64) a < (i64) b); case 0x25: return put(a < b); case 0x26: return put(b ? a : 0); case 0x27: return put(b ? 0 : a);	// maskeqz, masknez
	case 0x28: return put(~(a | b)); case 0x29: return put(a & b); case 0x2a: return put(a | b); case 0x2b: return put(a ^ b); case 0x2c: return put(a | ~b); case 0x2d: return put(a & ~b);
	case 0x2e: return put(w((u32) a << (b & 31))); case 0x2f: return put(w((u32) a >> (b & 31))); case 0x30: return put((u64) (i64) ((int) a >> (b & 31)));
	case 0x31: return put(a << (b & 63)); case 0x32: return put(a >> (b & 63)); case 0x33: return put((u64) ((i64) a >> (b & 63)));
	case 0x38: return put(w(a * b)); case 0x3b: return put(a * b);
	case 0x42: return put(w(b & 0xffffffff ? (u64) ((u32) a / (u32) b) : 0)); case 0x46: return put(b ? a / b : 0); case 0x47: return put(b ? a % b : 0);
	case 0x70c0: if (rd) return false;	// __builtin_trap
	[[fallthrough]];
	case 0x54: violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str());
	case 0x81: return put(w((u32) a << rk)); case 0x89: return put(w((u32) a >> rk)); case 0x91: return put((u64) (i64) ((int) a >> rk));
	case 0x70e4: {	// dbar: bits 0..3 say what need not be ordered, bit 4 that only ordering is wanted
		int h = i & 0x7fff; if (h & ~0x1f) h = 0;
		if (!(h & 0x10)) { gbar(c, WF_ALL); return true; }
		bool pr = !(h & 8), pw = !(h & 4), sr = !(h & 2), sw = !(h & 1);
		gbar(c, (pr && sr ? WF_RR : 0) | (pr && sw ? WF_RW : 0) | (pw && sw ? WF_WW : 0) | (pw && sr ? WF_WR : 0)); return true;
	}
	case 0x7000: return put((u64) (i64) gld<signed char>(c, a + b)); case 0x7008: return put((u64) (i64) gld<short>(c, a + b)); case 0x7010: return put((u64) (i64) gld<int>(c, a + b)); case 0x7018: return put(gld<u64>(c, a + b));
	case 0x7020: gst<u8>(c, a + b, (u8) d); return true; case 0x7028: gst<u16>(c, a + b, (u16) d); return true; case 0x7030: gst<u32>(c, a + b, (u32) d); return true; case 0x7038: gst<u64>(c, a + b, d); return true;
	case 0x7040: return put(gld<u8>(c, a + b)); case 0x7048: return put(gld<u16>(c, a + b)); case 0x7050: return put(gld<u32>(c, a + b));
	}
	switch (i >> 10) { case 0x16: return put((u64) (i64) (short) a); case 0x17: return put((u64) (i64) (signed char) a); }	// ext.w.h, ext.w.b
	return false;
}
}
