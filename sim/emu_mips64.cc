// MIPS, 64 bits (release 2, n64) and 32 bits (o32). A branch and its delay slot are one step: an
// interruption of the slot is reported by the processor at the address of the branch.
#include "emu.h"
namespace sim {
static bool exec1(Cpu &c, u32 i, u64 pc) {
	int op = i >> 26, rs = i >> 21 & 31, rt = i >> 16 & 31, rd = i >> 11 & 31, sa = i >> 6 & 31, fn = i & 63;
	u64 s = c.r[rs], t = c.r[rt]; i64 im = sx(i & 0xffff, 16); u64 uim = i & 0xffff, at = s + (u64) im;
	auto putd = [&](u64 v) { if (rd) c.r[rd] = v; return true; };
	auto put = [&](u64 v) { if (rt) c.r[rt] = v; return true; };
	auto w = [](u64 v) { return (u64) (i64) (int) v; };
	auto trap = [&] { violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return true; };
	u64 &lo = c.ctr, &hi = c.lr;
	(void) pc;
	switch (op) {
	case 0:
		switch (fn) {
		case 0: return putd(w((u32) t << sa)); case 2: return putd(w((u32) t >> sa)); case 3: return putd((u64) (i64) ((int) t >> sa));
		case 4: return putd(w((u32) t << (s & 31))); case 6: return putd(w((u32) t >> (s & 31))); case 7: return putd((u64) (i64) ((int) t >> (s & 31)));
		case 0x0a: return t == 0 ? putd(s) : true; case 0x0b: return t != 0 ? putd(s) : true;
		case 0x0d: return trap(); case 0x0f: gbar(c, sa == 4 ? WF_WW : sa == 0x13 ? WF_RR : sa == 0x11 ? WF_RR | WF_RW : sa == 0x12 ? WF_RW | WF_WW : WF_ALL); return true;
		case 0x10: return putd(hi); case 0x12: return putd(lo);
		case 0x14: return putd(t << (s & 63)); case 0x16: return putd(t >> (s & 63)); case 0x17: return putd((u64) ((i64) t >> (s & 63)));
		case 0x18: { i64 p = (i64) (int) s * (int) t; lo = w((u64) p); hi = w((u64) p >> 32); return true; }
		case 0x19: { u64 p = (u64) (u32) s * (u32) t; lo = w(p); hi = w(p >> 32); return true; }
		case 0x1b: if ((u32) t) { lo = w((u32) s / (u32) t); hi = w((u32) s % (u32) t); } return true;
		case 0x1c: { __int128 p = (__int128) (i64) s * (i64) t; lo = (u64) p; hi = (u64) (p >> 64); return true; }
		case 0x1d: { unsigned __int128 p = (unsigned __int128) s * t; lo = (u64) p; hi = (u64) (p >> 64); return true; }
		case 0x1f: if (t) { lo = s / t; hi = s % t; } return true;
		case 0x20: case 0x21: return putd(w(s + t)); case 0x22: case 0x23: return putd(w(s - t));
		case 0x24: return putd(s & t); case 0x25: return putd(s | t); case 0x26: return putd(s ^ t); case 0x27: return putd(~(s | t));
		case 0x2a: return putd((i64) s < (i64) t); case 0x2b: return putd(s < t); case 0x2c: case 0x2d: return putd(s + t); case 0x2e: case 0x2f: return putd(s - t);
		case 0x34: return s == t ? trap() : true;
		case 0x38: return putd(t << sa); case 0x3a: return putd(rs & 1 ? (t >> sa | (sa ? t << (64 - sa) : 0)) : t >> sa); case 0x3b: return putd((u64) ((i64) t >> sa));
		case 0x3c: return putd(t << (sa + 32)); case 0x3e: return rs ? false : putd(t >> (sa + 32)); case 0x3f: return putd((u64) ((i64) t >> (sa + 32)));
		}
		return false;
	case 0x08: case 0x09: return put(w(s + (u64) im)); case 0x0a: return put((i64) s < im); case 0x0b: return put(s < (u64) im); case 0x0c: return put(s & uim); case 0x0d: return put(s | uim); case 0x0e: return put(s ^ uim); case 0x0f: return put((u64) (i64) (int) (uim << 16));
	case 0x18: case 0x19: return put(s + (u64) im);
	case 0x1c: if (fn == 2) return putd(w(s * t)); return false;
	case 0x1f:
		switch (fn) {
		case 0: { int n = rd + 1; return put(w((u32) s >> sa & (n == 32 ? ~0u : (1u << n) - 1))); }
		case 1: { int n = rd + 33; return put(s >> sa & (n == 64 ? ~0ULL : (1ULL << n) - 1)); }
		case 2: return put(s >> (sa + 32) & ((1ULL << (rd + 1)) - 1));
		case 3: return put(s >> sa & (rd == 31 ? 0xffffffffULL : (1ULL << (rd + 1)) - 1));
		case 7: { if (rd < sa) return false; u64 m = ((1ULL << (rd - sa + 1)) - 1) << sa; return put((t & ~m) | (s << sa & m)); }
		case 0x20: if (sa == 0x10) return putd((u64) (i64) (signed char) t); if (sa == 0x18) return putd((u64) (i64) (short) t); return false;
		case 0x3b: return rd == 29 ? put(c.g->w32 ? (u64) (i64) (int) W32_TP : c.tp) : false;	// rdhwr: the thread pointer
		}
		return false;
	case 0x20: return put((u64) (i64) gld<signed char>(c, at)); case 0x21: return put((u64) (i64) gld<short>(c, at)); case 0x23: return put((u64) (i64) gld<int>(c, at)); case 0x24: return put(gld<u8>(c, at)); case 0x25: return put(gld<u16>(c, at)); case 0x27: return put(gld<u32>(c, at)); case 0x37: return put(gld<u64>(c, at));
	case 0x28: gst<u8>(c, at, (u8) t); return true; case 0x29: gst<u16>(c, at, (u16) t); return true; case 0x2b: gst<u32>(c, at, (u32) t); return true; case 0x3f: gst<u64>(c, at, t); return true;
	case 0x33: return true;	// pref
	}
	return false;
}
bool step_mips64(Cpu &c) {
	auto fetch = [&](u64 a) { u32 x = *(u32 *) a; return c.g->be ? __builtin_bswap32(x) : x; };
	u64 pc = c.pc; u32 i = fetch(pc); c.r[0] = 0;
	int op = i >> 26, rs = i >> 21 & 31, rt = i >> 16 & 31, fn = i & 63; i64 s = (i64) c.r[rs];
	u64 to = pc + 4 + (u64) (sx(i & 0xffff, 16) * 4); bool br = true, taken = false;
	switch (op) {
	case 0: if (fn == 8) { to = (u64) s; taken = true; } else if (fn == 9) { to = (u64) s; taken = true; c.r[i >> 11 & 31] = pc + 8; } else br = false; break;
	case 1: { int k = rt; if (k == 0) taken = s < 0; else if (k == 1) taken = s >= 0; else if (k == 0x11) { taken = s >= 0; c.r[31] = pc + 8; } else return false; break; }
	case 2: case 3: to = ((pc + 4) & ~0xfffffffULL) | (u64) (i & 0x3ffffff) << 2; taken = true; if (op == 3) c.r[31] = pc + 8; break;
	case 4: taken = c.r[rs] == c.r[rt]; break; case 5: taken = c.r[rs] != c.r[rt]; break; case 6: taken = s <= 0; break; case 7: taken = s > 0; break;
	default: br = false;
	}
	if (!br) { c.pc = pc + 4; return exec1(c, i, pc); }
	if (!exec1(c, fetch(pc + 4), pc + 4)) return false;
	c.pc = taken ? to : pc + 8;
	return true;
}
// The 32-bit subset leaves sign-extended words in the registers.
bool step_mips32(Cpu &c) { bool r = step_mips64(c); c.pc = (u32) c.pc; return r; }
}
