// z/Architecture: the integer instructions compilers use here. Code is big endian, data in host order.
#include "emu.h"
namespace sim {
static inline int ccs(i64 a, i64 b) { return a == b ? 0 : a < b ? 1 : 2; }
static inline int ccu(u64 a, u64 b) { return a == b ? 0 : a < b ? 1 : 2; }
static inline bool on(int mask, int cc) { return mask >> (3 - cc) & 1; }
bool step_s390(Cpu &c) {
	const u8 *p = (const u8 *) c.pc; u64 pc = c.pc; u64 *r = c.r;
	int len = p[0] < 0x40 ? 2 : p[0] < 0xc0 ? 4 : 6; c.pc += len;
	int r1 = p[1] >> 4, r2 = p[1] & 15;
	auto lo = [&](int n, u32 v) { r[n] = (r[n] & ~0xffffffffULL) | v; return true; };
	auto bx = [&](int b) { return b ? r[b] : 0; };
	auto ari = [&](i64 v, bool ov) { c.cc = ov ? 3 : ccs(v, 0); };
	auto add64 = [&](int n, i64 b) { i64 v; bool ov = __builtin_add_overflow((i64) r[n], b, &v); r[n] = (u64) v; ari(v, ov); return true; };
	auto sub64 = [&](int n, i64 b) { i64 v; bool ov = __builtin_sub_overflow((i64) r[n], b, &v); r[n] = (u64) v; ari(v, ov); return true; };
	auto add32 = [&](int n, int b) { int v; bool ov = __builtin_add_overflow((int) r[n], b, &v); lo(n, (u32) v); ari(v, ov); return true; };
	auto sub32 = [&](int n, int b) { int v; bool ov = __builtin_sub_overflow((int) r[n], b, &v); lo(n, (u32) v); ari(v, ov); return true; };
	auto s16 = [&](int o) { return (i64) (short) (p[o] << 8 | p[o + 1]); };
	auto s32 = [&](int o) { return (i64) (int) ((u32) p[o] << 24 | p[o + 1] << 16 | p[o + 2] << 8 | p[o + 3]); };
	auto disp12 = [&](int o) { return bx(p[o] >> 4) + (u64) ((p[o] & 15) << 8 | p[o + 1]); };
	auto disp20 = [&](int o) { return bx(p[o] >> 4) + (u64) sx((u64) p[o + 2] << 12 | (p[o] & 15) << 8 | p[o + 1], 20); };
	auto logic = [&](int n, u64 v) { r[n] = v; c.cc = v != 0; return true; };
	if (len == 2) switch (p[0]) {
	case 0x07: if (!r2 && r1 >= 14) gbar(c);	// serialisation
		if (r2 && on(r1, c.cc)) c.pc = r[r2]; return true;
	case 0x0d: { u64 t = r[r2]; r[r1] = pc + 2; if (r2) c.pc = t; return true; }
	case 0x18: return lo(r1, (u32) r[r2]);
	case 0x1a: return add32(r1, (int) r[r2]);
	case 0x1b: return sub32(r1, (int) r[r2]);
	case 0x19: c.cc = ccs((int) r[r1], (int) r[r2]); return true;
	case 0x15: c.cc = ccu((u32) r[r1], (u32) r[r2]); return true;
	case 0x12: lo(r1, (u32) r[r2]); c.cc = ccs((int) r[r1], 0); return true;
	case 0x14: lo(r1, (u32) (r[r1] & r[r2])); c.cc = (u32) r[r1] != 0; return true;
	case 0x16: lo(r1, (u32) (r[r1] | r[r2])); c.cc = (u32) r[r1] != 0; return true;
	case 0x17: lo(r1, (u32) (r[r1] ^ r[r2])); c.cc = (u32) r[r1] != 0; return true;
	default: return false;
	}
	if (len == 4) {
		if (p[0] == 0xa7) {
			i64 im = s16(2);
			switch (r2) {
			case 1: { u32 v = (u32) r[r1] & (u32) (im & 0xffff), m = (u32) (im & 0xffff); c.cc = !v ? 0 : v == m ? 3 : v >> (31 - __builtin_clz(m)) & 1 ? 2 : 1; return true; }
			case 4: if (on(r1, c.cc)) c.pc = pc + (u64) (im * 2); return true;
			case 5: r[r1] = pc + 4; c.pc = pc + (u64) (im * 2); return true;
			case 6: lo(r1, (u32) r[r1] - 1); if ((u32) r[r1]) c.pc = pc + (u64) (im * 2); return true;
			case 7: if (--r[r1]) c.pc = pc + (u64) (im * 2); return true;
			case 8: return lo(r1, (u32) im);
			case 9: r[r1] = (u64) im; return true;
			case 10: return add32(r1, (int) im);
			case 11: return add64(r1, im);
			case 12: return lo(r1, (u32) ((int) r[r1] * (int) im));
			case 13: r[r1] *= (u64) im; return true;
			case 14: c.cc = ccs((int) r[r1], im); return true;
			case 15: c.cc = ccs((i64) r[r1], im); return true;
			}
			return false;
		}
		if (p[0] == 0xa5) {
			int sh = 48 - 16 * (r2 & 3); u64 im = (u64) (s16(2) & 0xffff) << sh, m = 0xffffULL << sh;
			switch (r2 >> 2) { case 0: r[r1] = (r[r1] & ~m) | im; return true; case 1: r[r1] &= ~m | im; c.cc = (r[r1] & m) != 0; return true; case 2: r[r1] |= im; c.cc = (r[r1] & m) != 0; return true; default: r[r1] = im; return true; }
		}
		if (p[0] == 0xb2 || p[0] == 0xb9) {
			int a = p[3] >> 4, b = p[3] & 15, x = p[0] << 8 | p[1];
			switch (x) {
			case 0xb24f: return lo(a, b == 0 ? (u32) (c.tp >> 32) : b == 1 ? (u32) c.tp : 0);
			case 0xb2ff: violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return true;
			case 0xb252: return lo(a, (u32) r[a] * (u32) r[b]);
			case 0xb902: r[a] = r[b]; c.cc = ccs((i64) r[a], 0); return true;
			case 0xb912: r[a] = (u64) (i64) (int) r[b]; c.cc = ccs((i64) r[a], 0); return true;
			case 0xb903: r[a] = 0 - r[b]; c.cc = ccs((i64) r[a], 0); return true;
			case 0xb904: r[a] = r[b]; return true;
			case 0xb906: r[a] = (u64) (i64) (signed char) r[b]; return true;
			case 0xb907: r[a] = (u64) (i64) (short) r[b]; return true;
			case 0xb914: r[a] = (u64) (i64) (int) r[b]; return true;
			case 0xb916: r[a] = (u32) r[b]; return true;
			case 0xb984: r[a] = (u8) r[b]; return true;
			case 0xb987: { unsigned __int128 n = (unsigned __int128) r[a] << 64 | r[a + 1]; u64 d = r[b]; if (!d) return false; r[a] = (u64) (n % d); r[a + 1] = (u64) (n / d); return true; }
			case 0xb997: { u64 n = (u64) (u32) r[a] << 32 | (u32) r[a + 1]; u32 d = (u32) r[b]; if (!d) return false; lo(a, (u32) (n % d)); return lo(a + 1, (u32) (n / d)); }
			case 0xb994: return lo(a, (u8) r[b]);
			case 0xb985: r[a] = (u16) r[b]; return true;
			case 0xb995: return lo(a, (u16) r[b]);
			case 0xb908: return add64(a, (i64) r[b]);
			case 0xb918: return add64(a, (int) r[b]);
			case 0xb909: return sub64(a, (i64) r[b]);
			case 0xb919: return sub64(a, (int) r[b]);
			case 0xb90c: r[a] *= r[b]; return true;
			case 0xb920: c.cc = ccs((i64) r[a], (i64) r[b]); return true;
			case 0xb930: c.cc = ccs((i64) r[a], (int) r[b]); return true;
			case 0xb921: c.cc = ccu(r[a], r[b]); return true;
			case 0xb980: return logic(a, r[a] & r[b]);
			case 0xb981: return logic(a, r[a] | r[b]);
			case 0xb982: return logic(a, r[a] ^ r[b]);
			case 0xb9e8: { int k = p[2] >> 4; i64 v; bool ov = __builtin_add_overflow((i64) r[b], (i64) r[k], &v); r[a] = (u64) v; ari(v, ov); return true; }
			case 0xb9f8: { int k = p[2] >> 4, v; bool ov = __builtin_add_overflow((int) r[b], (int) r[k], &v); lo(a, (u32) v); ari(v, ov); return true; }
			}
			return false;
		}
		u64 ea = bx(r2) + disp12(2);
		switch (p[0]) {
		case 0x40: gst<u16>(c, ea, (u16) r[r1]); return true;
		case 0x41: r[r1] = ea; return true;
		case 0x42: gst<u8>(c, ea, (u8) r[r1]); return true;
		case 0x43: r[r1] = (r[r1] & ~0xffULL) | gld<u8>(c, ea); return true;
		case 0x48: return lo(r1, (u32) (int) gld<short>(c, ea));
		case 0x50: gst<u32>(c, ea, (u32) r[r1]); return true;
		case 0x54: { u32 v = (u32) r[r1] & gld<u32>(c, ea); c.cc = v != 0; return lo(r1, v); }
		case 0x55: c.cc = ccu((u32) r[r1], gld<u32>(c, ea)); return true;
		case 0x58: return lo(r1, gld<u32>(c, ea));
		case 0x59: c.cc = ccs((int) r[r1], gld<int>(c, ea)); return true;
		case 0x5a: return add32(r1, gld<int>(c, ea));
		case 0x5b: return sub32(r1, gld<int>(c, ea));
		case 0x92: gst<u8>(c, disp12(2), p[1]); return true;
		case 0x95: c.cc = ccu(gld<u8>(c, disp12(2)), p[1]); return true;
		case 0x89: return lo(r1, (disp12(2) & 63) > 31 ? 0 : (u32) r[r1] << (disp12(2) & 31));
		case 0x88: return lo(r1, (disp12(2) & 63) > 31 ? 0 : (u32) r[r1] >> (disp12(2) & 31));
		}
		return false;
	}
	u64 rel = pc + (u64) (s32(2) * 2);
	switch (p[0]) {
	case 0xc0: {
		u64 im = (u32) s32(2);
		switch (r2) {
		case 0: r[r1] = rel; return true;
		case 1: r[r1] = (u64) s32(2); return true;
		case 4: if (on(r1, c.cc)) c.pc = rel; return true;
		case 5: r[r1] = pc + 6; c.pc = rel; return true;
		case 6: r[r1] ^= im << 32; c.cc = r[r1] >> 32 != 0; return true;
		case 7: r[r1] ^= im; c.cc = (u32) r[r1] != 0; return true;
		case 8: r[r1] = (u32) r[r1] | im << 32; return true;
		case 9: return lo(r1, (u32) im);
		case 10: r[r1] &= im << 32 | 0xffffffffULL; c.cc = r[r1] >> 32 != 0; return true;
		case 11: r[r1] &= ~0xffffffffULL | im; c.cc = (u32) r[r1] != 0; return true;
		case 12: r[r1] |= im << 32; c.cc = r[r1] >> 32 != 0; return true;
		case 13: r[r1] |= im; c.cc = (u32) r[r1] != 0; return true;
		case 14: r[r1] = im << 32; return true;
		case 15: r[r1] = im; return true;
		}
		return false;
	}
	case 0xc2:
		switch (r2) {
		case 0: r[r1] *= (u64) s32(2); return true;
		case 8: return add64(r1, s32(2));
		case 9: return add32(r1, (int) s32(2));
		case 12: c.cc = ccs((i64) r[r1], s32(2)); return true;
		case 13: c.cc = ccs((int) r[r1], s32(2)); return true;
		case 14: c.cc = ccu(r[r1], (u32) s32(2)); return true;
		case 15: c.cc = ccu((u32) r[r1], (u32) s32(2)); return true;
		}
		return false;
	case 0xc4:
		switch (r2) {
		case 8: r[r1] = gld<u64>(c, rel); return true;
		case 11: gst<u64>(c, rel, r[r1]); return true;
		case 12: r[r1] = (u64) (i64) gld<int>(c, rel); return true;
		case 13: return lo(r1, gld<u32>(c, rel));
		case 14: r[r1] = gld<u32>(c, rel); return true;
		case 15: gst<u32>(c, rel, (u32) r[r1]); return true;
		}
		return false;
	case 0xc6:
		switch (r2) {
		case 8: c.cc = ccs((i64) r[r1], gld<i64>(c, rel)); return true;
		case 13: c.cc = ccs((int) r[r1], gld<int>(c, rel)); return true;
		case 15: c.cc = ccu((u32) r[r1], gld<u32>(c, rel)); return true;
		}
		return false;
	case 0xe5: {
		u64 ea = disp12(2); i64 im = s16(4);
		switch (p[1]) {
		case 0x44: gst<u16>(c, ea, (u16) im); return true;
		case 0x48: gst<u64>(c, ea, (u64) im); return true;
		case 0x4c: gst<u32>(c, ea, (u32) im); return true;
		case 0x58: c.cc = ccs(gld<i64>(c, ea), im); return true;
		case 0x59: c.cc = ccu(gld<u64>(c, ea), (u16) im); return true;
		case 0x5c: c.cc = ccs(gld<int>(c, ea), im); return true;
		case 0x5d: c.cc = ccu(gld<u32>(c, ea), (u16) im); return true;
		}
		return false;
	}
	case 0xe3: {
		u64 ea = bx(r2) + disp20(2);
		switch (p[5]) {
		case 0x02: r[r1] = gld<u64>(c, ea); c.cc = ccs((i64) r[r1], 0); return true;
		case 0x04: r[r1] = gld<u64>(c, ea); return true;
		case 0x08: return add64(r1, gld<i64>(c, ea));
		case 0x18: return add64(r1, gld<int>(c, ea));
		case 0x09: return sub64(r1, gld<i64>(c, ea));
		case 0x0c: r[r1] *= gld<u64>(c, ea); return true;
		case 0x12: lo(r1, gld<u32>(c, ea)); c.cc = ccs((int) r[r1], 0); return true;
		case 0x32: r[r1] = (u64) (i64) gld<int>(c, ea); c.cc = ccs((i64) r[r1], 0); return true;
		case 0x14: r[r1] = (u64) (i64) gld<int>(c, ea); return true;
		case 0x15: r[r1] = (u64) (i64) gld<short>(c, ea); return true;
		case 0x16: r[r1] = gld<u32>(c, ea); return true;
		case 0x20: c.cc = ccs((i64) r[r1], gld<i64>(c, ea)); return true;
		case 0x30: c.cc = ccs((i64) r[r1], gld<int>(c, ea)); return true;
		case 0x21: c.cc = ccu(r[r1], gld<u64>(c, ea)); return true;
		case 0x31: c.cc = ccu(r[r1], gld<u32>(c, ea)); return true;
		case 0x24: gst<u64>(c, ea, r[r1]); return true;
		case 0x50: gst<u32>(c, ea, (u32) r[r1]); return true;
		case 0x55: c.cc = ccu((u32) r[r1], gld<u32>(c, ea)); return true;
		case 0x58: return lo(r1, gld<u32>(c, ea));
		case 0x59: c.cc = ccs((int) r[r1], gld<int>(c, ea)); return true;
		case 0x5a: return add32(r1, gld<int>(c, ea));
		case 0x71: r[r1] = ea; return true;
		case 0x72: gst<u8>(c, ea, (u8) r[r1]); return true;
		case 0x73: r[r1] = (r[r1] & ~0xffULL) | gld<u8>(c, ea); return true;
		case 0x76: return lo(r1, (u32) (int) gld<signed char>(c, ea));
		case 0x77: r[r1] = (u64) (i64) gld<signed char>(c, ea); return true;
		case 0x80: return logic(r1, r[r1] & gld<u64>(c, ea));
		case 0x81: return logic(r1, r[r1] | gld<u64>(c, ea));
		case 0x82: return logic(r1, r[r1] ^ gld<u64>(c, ea));
		case 0x90: r[r1] = gld<u8>(c, ea); return true;
		case 0x94: return lo(r1, gld<u8>(c, ea));
		case 0x91: r[r1] = gld<u16>(c, ea); return true;
		case 0x95: return lo(r1, gld<u16>(c, ea));
		case 0x70: gst<u16>(c, ea, (u16) r[r1]); return true;
		case 0x78: return lo(r1, (u32) (int) gld<short>(c, ea));
		}
		return false;
	}
	case 0xeb: {
		u64 ea = disp20(2);
		switch (p[5]) {
		case 0x04: for (int n = r1; ; n = (n + 1) & 15, ea += 8) { r[n] = gld<u64>(c, ea); if (n == r2) break; } return true;
		case 0x24: for (int n = r1; ; n = (n + 1) & 15, ea += 8) { gst<u64>(c, ea, r[n]); if (n == r2) break; } return true;
		case 0x0d: r[r1] = r[r2] << (ea & 63); return true;
		case 0x0c: r[r1] = r[r2] >> (ea & 63); return true;
		case 0x0a: r[r1] = (u64) ((i64) r[r2] >> (ea & 63)); c.cc = ccs((i64) r[r1], 0); return true;
		case 0x6a: { int v; bool ov = __builtin_add_overflow(gld<int>(c, ea), (int) (signed char) p[1], &v); gst<int>(c, ea, v); ari(v, ov); return true; }
		case 0x7a: { i64 v; bool ov = __builtin_add_overflow(gld<i64>(c, ea), (i64) (signed char) p[1], &v); gst<i64>(c, ea, v); ari(v, ov); return true; }
		}
		return false;
	}
	case 0xec: {
		u64 t = pc + (u64) (s16(2) * 2); int m3 = p[4] >> 4; i64 i8 = (signed char) p[4];
		switch (p[5]) {
		case 0x7e: if (on(r2, ccs((int) r[r1], i8))) c.pc = t; return true;
		case 0x7c: if (on(r2, ccs((i64) r[r1], i8))) c.pc = t; return true;
		case 0x7d: if (on(r2, ccu(r[r1], p[4]))) c.pc = t; return true;
		case 0x7f: if (on(r2, ccu((u32) r[r1], p[4]))) c.pc = t; return true;
		case 0x64: if (on(m3, ccs((i64) r[r1], (i64) r[r2]))) c.pc = t; return true;
		case 0x65: if (on(m3, ccu(r[r1], r[r2]))) c.pc = t; return true;
		case 0x76: if (on(m3, ccs((int) r[r1], (int) r[r2]))) c.pc = t; return true;
		case 0x77: if (on(m3, ccu((u32) r[r1], (u32) r[r2]))) c.pc = t; return true;
		case 0xfc: if (on(r2, ccs((i64) r[r1], i8))) c.pc = disp12(2); return true;
		case 0xfe: if (on(r2, ccs((int) r[r1], i8))) c.pc = disp12(2); return true;
		case 0xfd: if (on(r2, ccu(r[r1], p[4]))) c.pc = disp12(2); return true;
		case 0xff: if (on(r2, ccu((u32) r[r1], p[4]))) c.pc = disp12(2); return true;
		case 0xd9: { i64 v; bool ov = __builtin_add_overflow((i64) r[r2], s16(2), &v); r[r1] = (u64) v; ari(v, ov); return true; }
		case 0xd8: { int v; bool ov = __builtin_add_overflow((int) r[r2], (int) s16(2), &v); lo(r1, (u32) v); ari(v, ov); return true; }
		case 0x55: case 0x59: {	// rotate then insert selected bits
			int i3 = p[2] & 63, i4 = p[3] & 63, i5 = p[4] & 63; bool z = p[3] & 0x80; u64 v = i5 ? r[r2] << i5 | r[r2] >> (64 - i5) : r[r2];
			u64 a = ~0ULL >> i3, b = ~0ULL << (63 - i4), m = i3 <= i4 ? a & b : a | b; r[r1] = (v & m) | (z ? 0 : r[r1] & ~m); if (p[5] == 0x55) c.cc = ccs((i64) r[r1], 0); return true;
		}
		}
		return false;
	}
	}
	return false;
}
}
