// x86, 32 bits: the integer instructions compilers use for the operations.
#include "emu.h"
namespace sim {
namespace {
struct X {
	Cpu &c; u64 pc; bool o16 = false, lock = false, rep = false; u32 seg = 0; int mod = 0, reg = 0, rm = 0; u32 ea = 0;
	u8 f8() { return *(u8 *) pc++; }
	u16 f16() { u16 v; memcpy(&v, (void *) pc, 2); pc += 2; return v; }
	u32 f32() { u32 v; memcpy(&v, (void *) pc, 4); pc += 4; return v; }
	u32 imm(int n) { return n == 1 ? (u32) (int) (signed char) f8() : n == 2 ? (u32) (int) (short) f16() : f32(); }
	u32 R(int i) { return (u32) c.r[i]; }
	static u32 mask(int n) { return n == 4 ? ~0u : n == 2 ? 0xffff : 0xff; }
	u32 getr(int i, int n) { return n == 1 ? (i < 4 ? R(i) & 0xff : R(i - 4) >> 8 & 0xff) : R(i) & mask(n); }
	void putr(int i, int n, u32 v) {
		if (n == 4) c.r[i] = v; else if (n == 2) c.r[i] = (R(i) & ~0xffffu) | (v & 0xffff);
		else if (i < 4) c.r[i] = (R(i) & ~0xffu) | (v & 0xff); else c.r[i - 4] = (R(i - 4) & ~0xff00u) | (v & 0xff) << 8;
	}
	u32 ldm(u32 a, int n) { if (a == W32_TP) return W32_TP;	/* %gs:0 is the thread pointer */ return n == 4 ? gld<u32>(c, a) : n == 2 ? gld<u16>(c, a) : gld<u8>(c, a); }
	void stm(u32 a, int n, u32 v) { if (n == 4) gst<u32>(c, a, v); else if (n == 2) gst<u16>(c, a, (u16) v); else gst<u8>(c, a, (u8) v); }
	void modrm() {
		u8 m = f8(); mod = m >> 6; reg = m >> 3 & 7; rm = m & 7;
		if (mod == 3) return;
		u32 b = 0; bool base = true;
		if (rm == 4) { u8 s = f8(); int bs = s & 7, ix = s >> 3 & 7; if (ix != 4) b = R(ix) << (s >> 6); if (bs == 5 && mod == 0) { b += f32(); base = false; } else b += R(bs); }
		else if (rm == 5 && mod == 0) { b = f32(); base = false; }
		else b = R(rm);
		(void) base;
		if (mod == 1) b += (u32) (int) (signed char) f8(); else if (mod == 2) b += f32();
		ea = b;
	}
	u32 grm(int n) { return mod == 3 ? getr(rm, n) : ldm(ea + seg, n); }
	void prm(int n, u32 v) { if (mod == 3) putr(rm, n, v); else stm(ea + seg, n, v); }
	void nz(u32 v, int n) { v &= mask(n); c.Z = v == 0; c.N = v >> (8 * n - 1) & 1; }
	u32 alu(int op, u32 a, u32 b, int n) {
		a &= mask(n); b &= mask(n); u32 r; u32 top = 1u << (8 * n - 1);
		switch (op) {
		case 0: case 2: { u64 s = (u64) a + b + (op == 2 && c.C); r = (u32) s & mask(n); c.C = s >> (8 * n) & 1; c.V = (~(a ^ b) & (a ^ r) & top) != 0; break; }
		case 3: case 5: case 7: { u64 s = (u64) a - b - (op == 3 && c.C); r = (u32) s & mask(n); c.C = s >> (8 * n) & 1; c.V = ((a ^ b) & (a ^ r) & top) != 0; break; }
		default: r = op == 1 ? a | b : op == 4 ? a & b : a ^ b; c.C = c.V = false;
		}
		nz(r, n); return r;
	}
	bool cond(int k, bool &t) {
		switch (k >> 1) { case 0: t = c.V; break; case 1: t = c.C; break; case 2: t = c.Z; break; case 3: t = c.C || c.Z; break; case 4: t = c.N; break; case 6: t = c.N != c.V; break; case 7: t = c.Z || c.N != c.V; break; default: return false; }
		if (k & 1) t = !t;
		return true;
	}
	void push(u32 v) { c.r[4] = (u32) (c.r[4] - 4); stm(R(4), 4, v); }
	u32 pop() { u32 v = ldm(R(4), 4); c.r[4] = (u32) (c.r[4] + 4); return v; }
	u32 shift(int op, u32 v, int k, int n, bool &ok) {
		k &= 31; if (!k) return v;
		v &= mask(n); u32 r; int w = 8 * n;
		switch (op) {
		case 4: r = k < w ? v << k : 0; c.C = k <= w && (v >> (w - k) & 1); break;
		case 5: r = k < w ? v >> k : 0; c.C = v >> (k - 1) & 1; break;
		case 7: { i64 s = sx(v, w); r = (u32) (s >> k); c.C = s >> (k - 1) & 1; break; }
		case 0: case 1: { k &= w - 1; if (op == 1) k = (w - k) & (w - 1); r = k ? v << k | v >> (w - k) : v; return r & mask(n); }
		default: ok = false; return 0;
		}
		nz(r, n); c.V = false; return r & mask(n);
	}
	bool step() {
		for (;;) {
			u8 b = *(u8 *) pc;
			if (b == 0x66) o16 = true; else if (b == 0xf0) lock = true; else if (b == 0x65) seg = W32_TP; else if (b == 0xf3) rep = true; else if (b == 0x2e || b == 0x3e) ; else break;
			pc++;
		}
		u8 op = f8(); int n = op & 1 ? (o16 ? 2 : 4) : 1; int nn = o16 ? 2 : 4; bool t, ok = true;
		if (lock) gbar(c);
		if (op < 0x40 && (op & 7) < 6) {
			int k = op >> 3, f = op & 7; u32 r;
			if (f < 4) { modrm(); if (f < 2) { r = alu(k, grm(n), getr(reg, n), n); if (k != 7) prm(n, r); } else { r = alu(k, getr(reg, n), grm(n), n); if (k != 7) putr(reg, n, r); } }
			else { r = alu(k, getr(0, n), imm(n), n); if (k != 7) putr(0, n, r); }
			return true;
		}
		if (op >= 0x40 && op < 0x50) { bool cc = c.C; int i = op & 7; putr(i, nn, alu(op & 8 ? 5 : 0, getr(i, nn), 1, nn)); c.C = cc; return true; }
		if (op >= 0x50 && op < 0x58) { push(R(op & 7)); return true; }
		if (op >= 0x58 && op < 0x60) { u32 v = pop(); c.r[op & 7] = v; return true; }
		if (op >= 0x70 && op < 0x80) { u32 d = imm(1); if (!cond(op & 15, t)) return false; if (t) pc += (u64) (i64) (int) d; return true; }
		if (op >= 0xb0 && op < 0xb8) { putr(op & 7, 1, f8()); return true; }
		if (op >= 0xb8 && op < 0xc0) { putr(op & 7, nn, imm(nn)); return true; }
		if (op >= 0x91 && op < 0x98) { u32 a = getr(0, nn), b = getr(op & 7, nn); putr(0, nn, b); putr(op & 7, nn, a); return true; }
		switch (op) {
		case 0x68: push(f32()); return true; case 0x6a: push(imm(1)); return true;
		case 0x69: case 0x6b: { modrm(); i64 a = sx(grm(nn), 8 * nn), b = (int) imm(op == 0x6b ? 1 : nn); i64 p = a * b; putr(reg, nn, (u32) p); c.C = c.V = p != sx((u64) p, 8 * nn); return true; }
		case 0x80: case 0x81: case 0x83: { modrm(); u32 im = imm(op == 0x83 ? 1 : n); u32 r = alu(reg, grm(n), im, n); if (reg != 7) prm(n, r); if (lock) gbar(c); return true; }
		case 0x84: case 0x85: modrm(); alu(4, grm(n), getr(reg, n), n); return true;
		case 0x86: case 0x87: { modrm(); u32 v = grm(n), w = getr(reg, n); if (mod != 3) gbar(c); prm(n, w); putr(reg, n, v); if (mod != 3) gbar(c); return true; }
		case 0x88: case 0x89: modrm(); prm(n, getr(reg, n)); return true;
		case 0x8a: case 0x8b: modrm(); putr(reg, n, grm(n)); return true;
		case 0x8d: modrm(); if (mod == 3) return false; putr(reg, nn, ea); return true;
		case 0x8f: { modrm(); if (reg) return false; u32 v = pop(); prm(4, v); return true; }
		case 0x90: return true;
		case 0x98: if (o16) putr(0, 2, (u32) (int) (signed char) getr(0, 1)); else putr(0, 4, (u32) (int) (short) getr(0, 2)); return true;
		case 0x99: putr(2, nn, sx(getr(0, nn), 8 * nn) < 0 ? ~0u : 0); return true;
		case 0xa0: case 0xa1: putr(0, n, ldm(f32() + seg, n)); return true; case 0xa2: case 0xa3: stm(f32() + seg, n, getr(0, n)); return true;
		case 0xa8: case 0xa9: alu(4, getr(0, n), imm(n), n); return true;
		case 0xc0: case 0xc1: { modrm(); int k = f8(); u32 r = shift(reg, grm(n), k, n, ok); prm(n, r); return ok; }
		case 0xd0: case 0xd1: { modrm(); u32 r = shift(reg, grm(n), 1, n, ok); prm(n, r); return ok; }
		case 0xd2: case 0xd3: { modrm(); u32 r = shift(reg, grm(n), getr(1, 1), n, ok); prm(n, r); return ok; }
		case 0xc2: { u32 k = f16(); pc = pop(); c.r[4] = (u32) (c.r[4] + k); return true; }
		case 0xc3: pc = pop(); return true;
		case 0xc6: case 0xc7: modrm(); if (reg) return false; prm(n, imm(n)); return true;
		case 0xc9: c.r[4] = c.r[5]; c.r[5] = pop(); return true;
		case 0xe8: { u32 d = f32(); push((u32) pc); pc = (u32) (pc + d); return true; }
		case 0xe9: { u32 d = f32(); pc = (u32) (pc + d); return true; }
		case 0xeb: { u32 d = imm(1); pc = (u32) (pc + d); return true; }
		case 0xf6: case 0xf7:
			modrm();
			switch (reg) {
			case 0: case 1: { u32 v = grm(n); alu(4, v, imm(n), n); return true; }
			case 2: prm(n, ~grm(n)); return true;
			case 3: prm(n, alu(5, 0, grm(n), n)); return true;
			case 4: if (n != 4) return false; { u64 p = (u64) R(0) * grm(4); c.r[0] = (u32) p; c.r[2] = p >> 32; c.C = c.V = p >> 32; return true; }
			case 5: if (n != 4) return false; { i64 p = (i64) (int) R(0) * (int) grm(4); c.r[0] = (u32) p; c.r[2] = (u32) (p >> 32); return true; }
			case 6: {
				u32 d = grm(n); if (!d) return false;
				if (n == 1) { u32 a = getr(0, 2); putr(0, 1, a / d); putr(4, 1, a % d); return true; }
				if (n == 4) { u64 a = (u64) R(2) << 32 | R(0); c.r[0] = (u32) (a / d); c.r[2] = (u32) (a % d); return true; }
				return false;
			}
			default: return false;
			}
		case 0xfe: case 0xff:
			modrm();
			switch (reg) {
			case 0: case 1: { bool cc = c.C; u32 r = alu(reg ? 5 : 0, grm(n), 1, n); prm(n, r); c.C = cc; return true; }
			case 2: { u32 to = grm(4); push((u32) pc); pc = to; return true; }
			case 4: pc = grm(4); return true;
			case 6: push(grm(4)); return true;
			default: return false;
			}
		case 0xa4: case 0xa5: {	// one element per step when repeated
			if (rep && !R(1)) return true;
			stm(R(7), n, ldm(R(6), n)); c.r[6] = (u32) (R(6) + (u32) n); c.r[7] = (u32) (R(7) + (u32) n);
			if (rep) { c.r[1] = (u32) (R(1) - 1); pc = c.pc; }
			return true;
		}
		case 0x0f: break;
		default: return false;
		}
		op = f8();
		if (op >= 0x80 && op < 0x90) { u32 d = f32(); if (!cond(op & 15, t)) return false; if (t) pc = (u32) (pc + d); return true; }
		if (op >= 0x40 && op < 0x50) { modrm(); u32 v = grm(nn); if (!cond(op & 15, t)) return false; if (t) putr(reg, nn, v); return true; }
		if (op >= 0x90 && op < 0xa0) { modrm(); if (!cond(op & 15, t)) return false; prm(1, t); return true; }
		switch (op) {
		case 0x0b: case 0xb9: violate("crash", "trap instruction executed (thread %d op %d) [%s]", cur->id, cur->op ? cur->op->id : 0, c.g->name.c_str()); return false;
		case 0x1e: case 0x1f: modrm(); return true;
		case 0xae: modrm(); if (mod != 3) return false; gbar(c, reg == 5 ? WF_RR | WF_RW : reg == 7 ? WF_WW : WF_ALL); return true;
		case 0xaf: { modrm(); i64 p = sx(getr(reg, nn), 8 * nn) * sx(grm(nn), 8 * nn); putr(reg, nn, (u32) p); c.C = c.V = p != sx((u64) p, 8 * nn); return true; }
		case 0xb6: case 0xb7: modrm(); putr(reg, nn, grm(op & 1 ? 2 : 1)); return true;
		case 0xbe: case 0xbf: modrm(); putr(reg, nn, (u32) sx(grm(op & 1 ? 2 : 1), op & 1 ? 16 : 8)); return true;
		case 0xa4: case 0xac: { modrm(); int k = f8() & 31; u32 a = grm(4), b = R(reg); if (!k) return true; u32 r = op == 0xa4 ? a << k | b >> (32 - k) : a >> k | b << (32 - k); nz(r, 4); prm(4, r); return true; }
		}
		return false;
	}
};
}
bool step_i386(Cpu &c) { X x{ c, c.pc }; if (!x.step()) return false; c.pc = (u32) x.pc; return true; }
}
