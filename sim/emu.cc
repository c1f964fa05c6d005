// Guest loading and the emulated call.
#include "emu.h"
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <elf.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <endian.h>
extern "C" { extern ptrdiff_t rseq_offset; extern unsigned int rseq_size, rseq_flags; }
namespace sim {
std::vector<Guest *> guests; Guest *guest_now;
static const u64 MAGIC_RET = 0x7ff0;
enum { GSTK = 32768 }; static const u64 gstack = 0x3f000000;	// low memory, for 32-bit guests
static Stat st_call("guest:calls"), st_insn("guest:instructions"), st_unk("guest:unsupported_instruction"), st_weak("guest:ordered_commits");

static void en_a64(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[0] = arg; c.r[31] = sp; c.r[30] = ret; c.pc = fn; }
static void en_rv(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[10] = arg; c.r[2] = sp; c.r[1] = ret; c.r[4] = c.tp; c.pc = fn; }
static void en_ppc(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[3] = arg; c.r[1] = sp - 128; *(u64 *) (sp - 128) = 0; c.lr = ret; c.r[12] = fn; c.r[13] = c.tp; c.pc = fn; }
static void en_s390(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[2] = arg; c.r[15] = sp - 160; c.r[14] = ret; c.pc = fn; }
static void en_la(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[4] = arg; c.r[3] = sp; c.r[1] = ret; c.r[2] = c.tp; c.pc = fn; }
static void en_mips(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[4] = arg; c.r[29] = sp - 64; c.r[31] = ret; c.r[25] = fn; c.pc = fn; }
static void en_rv32(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { en_rv(c, fn, (u64) (i64) (int) arg, sp, ret); c.r[4] = (u64) (i64) (int) W32_TP; }
static void en_i386(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { u32 *s = (u32 *) (sp - 64); s[0] = (u32) ret; s[1] = (u32) arg; c.r[4] = sp - 64; c.pc = fn; }
static void en_a32(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[0] = arg; c.r[13] = sp; c.r[14] = ret; c.pc = fn; }
static void en_ppc32(Cpu &c, u64 fn, u64 arg, u64 sp, u64 ret) { c.r[3] = arg; c.r[1] = sp - 128; *(u32 *) (sp - 128) = 0; c.lr = ret; c.r[2] = W32_TP; c.pc = fn; }
static u64 rs_a64(Cpu &c) { return c.r[0]; }
static u64 rs_rv(Cpu &c) { return c.r[10]; }
static u64 rs_ppc(Cpu &c) { return c.r[3]; }
static u64 rs_s390(Cpu &c) { return c.r[2]; }
static u64 rs_la(Cpu &c) { return c.r[4]; }
static u64 rs_mips(Cpu &c) { return c.r[2]; }
struct ArchD { const char *arch; StepFn step; void (*enter)(Cpu &, u64, u64, u64, u64); u64 (*result)(Cpu &); bool be, tso, w32; };
static const ArchD archs[] = {
	{ "aarch64", step_a64, en_a64, rs_a64, false, false }, { "riscv64", step_rv64, en_rv, rs_rv, false, false },
	{ "loongarch64", step_la64, en_la, rs_la, false, false }, { "mips64el", step_mips64, en_mips, rs_mips, false, false },
	{ "ppc64le", step_ppc64, en_ppc, rs_ppc, false, false }, { "s390x", step_s390, en_s390, rs_s390, true, true },
	{ "riscv32", step_rv32, en_rv32, rs_rv, false, false, true }, { "mipsel", step_mips32, en_mips, rs_mips, false, false, true },
	{ "i386", step_i386, en_i386, rs_a64, false, true, true }, { "arm", step_a32, en_a32, rs_a64, false, false, true },
	{ "powerpc", step_ppc32, en_ppc32, rs_ppc, true, false, true }, { "mips", step_mips32, en_mips, rs_mips, true, false, true }, { "mips64", step_mips64, en_mips, rs_mips, true, false, false },
};

template <class Eh, class Ph, class Sh, class Sy> static bool load_as(const std::string &path, const std::string &name, const ArchD &a) {
	int fd = open(path.c_str(), O_RDONLY | O_CLOEXEC); if (fd < 0) return false;
	struct stat st; fstat(fd, &st); std::vector<u8> f(st.st_size); bool ok = read(fd, f.data(), f.size()) == (ssize_t) f.size(); close(fd);
	if (!ok || f.size() < 64 || memcmp(f.data(), "\177ELF", 4)) return false;
	bool be = a.be;
	auto h = [&](u16 v) { return be ? be16toh(v) : v; }; auto w = [&](u32 v) { return be ? be32toh(v) : v; }; auto q = [&](auto v) -> u64 { return !be ? v : sizeof v == 4 ? be32toh((u32) v) : be64toh((u64) v); };
	Eh *e = (Eh *) f.data();
	if (e->e_ident[EI_CLASS] != (a.w32 ? ELFCLASS32 : ELFCLASS64)) return false;
	Guest *g = new Guest; g->arch = a.arch; g->name = name; g->step = a.step; g->enter = a.enter; g->result = a.result; g->be = be; g->tso = a.tso; g->w32 = a.w32;
	Ph *ph = (Ph *) (f.data() + q(e->e_phoff));
	for (int i = 0; i < h(e->e_phnum); i++) if (w(ph[i].p_type) == PT_LOAD) {
		u64 v = q(ph[i].p_vaddr); g->img_lo = std::min<u64>(g->img_lo, v & ~4095ULL); g->img_hi = std::max<u64>(g->img_hi, (v + q(ph[i].p_memsz) + 4095) & ~4095ULL);
	}
	if (g->img_hi <= g->img_lo || g->img_hi - g->img_lo > (16 << 20)) return false;
	if (mmap((void *) g->img_lo, g->img_hi - g->img_lo, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *) g->img_lo) { perror("guest mmap"); return false; }
	for (int i = 0; i < h(e->e_phnum); i++) if (w(ph[i].p_type) == PT_LOAD) {
		u64 v = q(ph[i].p_vaddr);
		memcpy((void *) v, f.data() + q(ph[i].p_offset), q(ph[i].p_filesz));
		if (w(ph[i].p_flags) & PF_X) { g->text_lo = v; g->text_hi = v + q(ph[i].p_memsz); }
	}
	Sh *sh = (Sh *) (f.data() + q(e->e_shoff)); const char *ss = (const char *) f.data() + q(sh[h(e->e_shstrndx)].sh_offset);
	Sy *sy = nullptr; u64 ns = 0; const char *str = nullptr;
	auto swap64 = [&](u64 at, u64 n) { if (be) for (u64 i = 0; i < n; i++) ((u64 *) at)[i] = be64toh(((u64 *) at)[i]); };
	// some architectures have a second copy of each descriptor among the code
	auto copies = [&](u64 ad, u64 sz) {
		if (!be) return;
		std::set<std::string> raw; for (u64 o = 0; o + 32 <= sz; o += 32) raw.insert(std::string((char *) ad + o, 32));
		for (u64 t = g->img_lo; t + 32 <= g->img_hi; t += 4) if ((t + 32 <= ad || t >= ad + sz) && raw.count(std::string((char *) t, 32))) { u32 *p = (u32 *) t; p[0] = be32toh(p[0]); p[1] = be32toh(p[1]); swap64(t + 8, 3); }
	};
	auto swap32 = [&](u64 at, u64 n) { if (be) for (u64 i = 0; i < n; i++) ((u32 *) at)[i] = be32toh(((u32 *) at)[i]); };
	for (int i = 0; i < h(e->e_shnum); i++) {
		std::string n = ss + w(sh[i].sh_name); u64 ad = q(sh[i].sh_addr), sz = q(sh[i].sh_size);
		if (n == "__rseq_cs") { copies(ad, sz); g->cs_lo = ad; g->cs_hi = ad + sz; if (be) for (u64 o = 0; o + 32 <= sz; o += 32) { u32 *p = (u32 *) (ad + o); p[0] = be32toh(p[0]); p[1] = be32toh(p[1]); swap64(ad + o + 8, 3); } }
		else if (n == "__rseq_cs_ptr_array") { swap64(ad, sz / 8); for (u64 o = 0; o < sz; o += 8) g->cs_ptrs.push_back(*(u64 *) (ad + o)); }
		else if (n == "__rseq_exit_point_array") { swap64(ad, sz / 8); for (u64 o = 0; o + 16 <= sz; o += 16) g->exits.push_back({ *(u64 *) (ad + o), *(u64 *) (ad + o + 8) }); }
		else if (n == ".got" || n == ".toc" || n == ".data.rel.ro") { if (n != ".data.rel.ro" || !be) { if (a.w32) swap32(ad, sz / 4); else swap64(ad, n == ".data.rel.ro" ? 0 : sz / 8); } }
		else if (w(sh[i].sh_type) == SHT_SYMTAB) { sy = (Sy *) (f.data() + q(sh[i].sh_offset)); ns = sz / sizeof *sy; str = (const char *) f.data() + q(sh[w(sh[i].sh_link)].sh_offset); }
	}
	u64 tab = 0, sig = 0;
	for (u64 i = 0; i < ns; i++) {
		std::string n = str + w(sy[i].st_name); u64 v = q(sy[i].st_value);
		if (n == "g_optab") tab = v; else if (n == "g_sig") sig = v; else if (n == "rseq_offset") g->p_off = v; else if (n == "rseq_size") g->p_size = v; else if (n == "rseq_flags") g->p_flags = v;
	}
	if (!tab || !sig || !g->p_off) return false;
	if (a.w32) { u32 *p = (u32 *) tab; u64 *o = (u64 *) &g->tab; g->tab.compare_twice = (int) w(p[1]); for (size_t i = 2; i < sizeof(optab) / 8; i++) o[i] = w(p[i]); }
	else memcpy(&g->tab, (void *) tab, sizeof(optab));
	if (be && !a.w32) { u64 *p = (u64 *) &g->tab; g->tab.compare_twice = (int) be32toh((u32) g->tab.compare_twice); for (size_t i = 2; i < sizeof(optab) / 8; i++) p[i] = be64toh(p[i]); }
	g->tab.name = strdup(name.c_str());
	g->sig = w(*(u32 *) sig);
	g->stat = stat_id(("guest:run_" + name).c_str());
	guests.push_back(g);
	return true;
}
static bool load(const std::string &path, const std::string &name, const ArchD &a) {
	return a.w32 ? load_as<Elf32_Ehdr, Elf32_Phdr, Elf32_Shdr, Elf32_Sym>(path, name, a) : load_as<Elf64_Ehdr, Elf64_Phdr, Elf64_Shdr, Elf64_Sym>(path, name, a);
}
void guests_load() {
	char p[4096]; ssize_t n = readlink("/proc/self/exe", p, sizeof p - 1); if (n < 0) return; p[n] = 0;
	std::string dir = p; dir = dir.substr(0, dir.rfind('/'));
	mmap((void *) gstack, (u64) (MAXT + 1) * 3 * GSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
	std::map<std::string, std::pair<std::string, std::string>> bad;
	{ std::ifstream f(dir + "/guests_broken.txt"); std::string nm, k, m; while (f >> nm >> k && std::getline(f, m)) (k == "ops" ? bad[nm].first : bad[nm].second) = m; }
	for (auto &a : archs) for (const char *o : { "O2", "O1", "Os" }) {
		std::string nm = std::string(a.arch) + "-" + o; bool ok = load(dir + "/guest_" + a.arch + "_" + o + ".elf", nm, a);
		if (!bad.count(nm)) continue;
		if (!ok) { auto *g = new Guest; g->arch = a.arch; g->name = nm; g->stat = stat_id(("guest:run_" + nm).c_str()); g->tab = optab(); guests.push_back(g); }
		guests.back()->broken = bad[nm].first; guests.back()->nomem = bad[nm].second;
	}
}
Guest *guest_of(u64 fn) { if (fn >> 32) return nullptr; for (auto *g : guests) if (fn >= g->text_lo && fn < g->text_hi) return g; return nullptr; }

u64 emu_shared_lo = 0x0e0000000000ULL;
bool emu_shared(u64 a) { return a - emu_shared_lo < (4 << 20); }
static int depth_of[MAXT + 1];

// On a weakly ordered processor a plain store may be seen before what precedes it.
void emu_store_hook(Cpu &c, u64 a, bool release) {
	if (c.g->tso || !cur->sc) return;
	if (ops_release_commit(a)) {
		st_weak.hit();
		if (!release && (c.pend_ld || c.pend_st)) violate_of("C05 C01", "weak-publish", "the final store of a release operation is not ordered after the accesses before it [%s]", c.g->name.c_str());
	}
}
int emu_call(Guest *g, u64 fn, octx *ctx) {
	Cpu c; c.g = g; c.tp = cur->fs; c.ctx = (u64) ctx; c.csf = c.tp + (u64) ::rseq_offset + 8; int id = cur->id;
	int d = depth_of[id]++; if (d > 2) d = 2;
	g->enter(c, fn, g->w32 ? W32_CTX : (u64) ctx, gstack + (u64) (id * 3 + d + 1) * GSTK - 256, MAGIC_RET);
	st_call.hit();
	if (g->w32) *(int *) g->p_off = (int) ::rseq_offset; else *(ptrdiff_t *) g->p_off = ::rseq_offset; *(u32 *) g->p_size = ::rseq_size; *(u32 *) g->p_flags = ::rseq_flags;
	static ucontext_t ucs[MAXT + 1][3]; ucontext_t &uc = ucs[id][d];
	for (;;) {
		uc.uc_mcontext.gregs[REG_RIP] = (greg_t) c.pc;
		step_hook(&uc, c.pc != MAGIC_RET);
		c.pc = (u64) uc.uc_mcontext.gregs[REG_RIP];
		if (c.pc == MAGIC_RET) break;
		if (c.pc < g->text_lo || c.pc >= g->text_hi) violate("crash", "execution left the code at %llx (thread %d op %d) [%s]", (unsigned long long) c.pc, id, cur->op ? cur->op->id : 0, g->name.c_str());
		st_insn.hit();
		u64 pc0 = c.pc;
		static const bool tr = getenv("SIM_GUEST_TRACE"); if (tr) fprintf(stderr, "%d %llx: %08x\n", id, (unsigned long long) pc0, *(u32 *) pc0);
		if (!g->step(c)) {
			if (getenv("SIM_GUEST_DEBUG")) fprintf(stderr, "%s: unknown instruction at %llx: %08x %04x\n", g->name.c_str(), (unsigned long long) pc0, *(u32 *) pc0, *(u16 *) (pc0 + 4));
			st_unk.hit(); finish_run();
		}
	}
	depth_of[id]--;
	return (int) g->result(c);
}
}
