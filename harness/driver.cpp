// Conformance driver: executes call histories against the real library and records what is observable.
// Input (stdin): one case per line: "<id> <cmd> ; <cmd> ; ..."; output: one JSON object per case.
#include "driver.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <iostream>
#include <fstream>
#include <set>
#include <approx_matching.h>
#include <easy.h>
#include <re_lexer.h>

using namespace Pire;
typedef std::vector<std::string> Toks;

static size_t PageSize() { return 4096; }

// ---- texts ---------------------------------------------------------------------------------
bool g_poison = true;
struct Area {
	char* base; size_t len;      // accessible part, guarded on both sides
	Area(): base(0), len(0) {}
	void Need(size_t n) {
		n = (n + 2 * PageSize()) / PageSize() * PageSize();
		if (n <= len) return;
		len = n;
		char* p = (char*) mmap(0, len + 2 * PageSize(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		base = p + PageSize();
		mprotect(base, len, PROT_READ | PROT_WRITE);
	}
};
static Area g_area;

const char* PlaceText(const Bytes& t, int align, bool guard, const char*& end) {
	g_area.Need(t.size() + 64);
	memset(g_area.base, 'a', g_area.len);
	// surround the text with varying bytes
	char* b = guard ? g_area.base + g_area.len - t.size() : g_area.base + align;
	for (size_t i = 0; i < 48; ++i) {
		if (b - 1 - i >= g_area.base) b[-1 - (int) i] = char(97 + i % 7);
		if (b + t.size() + i < g_area.base + g_area.len) b[t.size() + i] = char(97 + i % 5);
	}
	if (!t.empty()) memcpy(b, &t[0], t.size());
	end = b + t.size();
	return b;
}

// ---- parsing of arguments ------------------------------------------------------------------
static std::vector<unsigned> Ints(const std::string& s) {
	std::vector<unsigned> r;
	if (s == "-" || s.empty()) return r;
	std::istringstream is(s);
	std::string x;
	while (std::getline(is, x, ',')) {
		size_t st = x.find('*');
		unsigned v = (unsigned) strtoul(x.c_str(), 0, 10);
		size_t n = st == std::string::npos ? 1 : strtoul(x.c_str() + st + 1, 0, 10);
		for (size_t i = 0; i < n; ++i) r.push_back(v);
	}
	return r;
}
static Bytes BytesOf(const std::string& s) {
	std::vector<unsigned> v = Ints(s);
	return Bytes(v.begin(), v.end());
}
static std::string StrOf(const std::string& s) {
	Bytes b = BytesOf(s);
	return std::string(b.begin(), b.end());
}
static int Int0(const std::string& s) { return atoi(s.c_str()); }

template<class C> static std::string Join(const C& c) {
	std::string r = "[";
	bool f = true;
	for (auto&& x : c) { if (!f) r += ','; f = false; r += std::to_string(x); }
	return r + "]";
}

// ---- the generator tool ----------------------------------------------------------------------
static std::string g_dir;      // where the programs are
struct InlineResult { std::vector<std::string> texts, data; std::vector<long> lines; };
// reads the tool's output as a C++ compiler would
struct CxxReader {
	const std::string& s; size_t i;
	CxxReader(const std::string& s, size_t i): s(s), i(i) {}
	bool Splice() { if (s.compare(i, 2, "\\\n") == 0) { i += 2; return true; } return false; }
	void Skip() {
		for (;;) {
			if (i < s.size() && (isspace((unsigned char) s[i]) || Splice())) { if (i < s.size() && isspace((unsigned char) s[i])) ++i; }
			else if (s.compare(i, 2, "//") == 0) { while (i < s.size() && s[i] != '\n') if (!Splice()) ++i; }
			else if (s.compare(i, 2, "/*") == 0) { i = s.find("*/", i + 2); if (i == std::string::npos) throw std::runtime_error("comment"); i += 2; }
			else return;
		}
	}
	bool Is(const char* token) { Skip(); size_t n = strlen(token); if (s.compare(i, n, token)) return false; i += n; return true; }
	bool All(const char* const* tokens) { for (; *tokens; ++tokens) if (!Is(*tokens)) return false; return true; }
	void Need(bool ok) { if (!ok) throw std::runtime_error("generated code"); }
	std::string Literals() {
		std::string r;
		while (Is("\"")) {
			for (; Need(i < s.size() && s[i] != '\n'), s[i] != '"';) {
				if (Splice()) continue;
				if (s[i] != '\\') { r += s[i++]; continue; }
				++i;
				if (s[i] == 'x') {
					unsigned long v = 0; size_t b = ++i;
					for (; isxdigit((unsigned char) s[i]); ++i) v = v * 16 + strtoul(s.substr(i, 1).c_str(), 0, 16);
					Need(i > b && v < 256); r += (char) v;
				} else if (s[i] >= '0' && s[i] <= '7') {
					unsigned v = 0;
					for (size_t k = 0; k < 3 && s[i] >= '0' && s[i] <= '7'; ++k) v = v * 8 + (s[i++] - '0');
					Need(v < 256); r += (char) v;
				} else {
					const char* from = "abfnrtv'\"\\?"; const char* to = "\a\b\f\n\r\t\v'\"\\?"; const char* at = strchr(from, s[i++]);
					Need(at && *at); r += to[at - from];
				}
			}
			++i;
		}
		return r;
	}
};
static InlineResult RunInline(const std::string& src, bool files) {
	int in = memfd_create("in", 0), out = memfd_create("out", 0), status = 0;
	if (in < 0 || out < 0 || write(in, src.data(), src.size()) != (ssize_t) src.size()) throw Unsupported("memfd");
	lseek(in, 0, SEEK_SET);
	std::string inName = files ? "/proc/self/fd/" + std::to_string(in) : "(stdin)", outName = "/proc/self/fd/" + std::to_string(out);
	pid_t pid = fork();
	if (!pid) {
		struct rlimit fs = { 8 << 20, 8 << 20 };
		setrlimit(RLIMIT_FSIZE, &fs);
		alarm(10);
		std::string tool = g_dir + "pire_inline";
		if (files) execl(tool.c_str(), "pire_inline", "-o", outName.c_str(), inName.c_str(), (char*) 0);
		dup2(in, 0); dup2(out, 1);
		execl(tool.c_str(), "pire_inline", (char*) 0);
		_exit(99);
	}
	waitpid(pid, &status, 0);
	std::string r;
	char b[65536];
	ssize_t n;
	lseek(out, 0, SEEK_SET);
	while (WIFEXITED(status) && (n = read(out, b, sizeof(b))) > 0) r.append(b, n);
	close(in); close(out);
	if (!WIFEXITED(status)) throw std::runtime_error("the tool crashed");
	if (WEXITSTATUS(status) == 99) throw Unsupported("tool");
	if (WEXITSTATUS(status)) throw Pire::Error("refused");
	InlineResult res;
	std::string head = "#line 1 \"" + inName + "\"\n";
	if (r.compare(0, head.size(), head)) throw std::runtime_error("first line");
	size_t from = head.size(), at = from;
	static const char* const opening[] = { "Pire", "::", "MmappedScanner", "<", "Pire", "::", "Scanner", ">", "(", "PIRE_LITERAL", "(", 0 };
	while ((at = r.find("Pire", at)) != std::string::npos) {
		CxxReader rd(r, at);
		if (!rd.All(opening)) { ++at; continue; }
		res.texts.push_back(r.substr(from, at - from));
		std::string data = rd.Literals();
		rd.Need(rd.Is(")") && rd.Is(","));
		rd.Skip();
		size_t size = 0;
		for (; isdigit((unsigned char) r[rd.i]); ++rd.i) size = size * 10 + (r[rd.i] - '0');
		rd.Need(rd.Is(")") && size == data.size());
		rd.Skip();
		rd.Need(r.compare(rd.i, 6, "#line ") == 0);
		rd.i += 6;
		long line = 0;
		for (; isdigit((unsigned char) r[rd.i]); ++rd.i) line = line * 10 + (r[rd.i] - '0');
		std::string tail = " \"" + inName + "\"\n";
		rd.Need(r.compare(rd.i, tail.size(), tail) == 0);
		at = from = rd.i + tail.size();
		res.data.push_back(data);
		res.lines.push_back(line);
	}
	res.texts.push_back(r.substr(from));
	return res;
}

// ---- observations --------------------------------------------------------------------------
// An automaton as a table: letters grouped by equal columns.  States and classes are 1-based.
struct DumpTooBig : std::runtime_error { DumpTooBig(): std::runtime_error("dump too big") {} };
static std::string DumpFsm(const Fsm& orig) {
	Fsm f(orig);
	const size_t n = f.Size();
	if (n > 600) throw DumpTooBig();
	f.Unsparse();
	std::map<std::vector<std::vector<size_t> >, int> classes;
	std::vector<std::vector<std::vector<size_t> > > cols;
	std::vector<std::pair<int,int> > bp;
	std::vector<std::vector<size_t> > eps;
	for (unsigned ch = 0; ch < 260; ++ch) {
		std::vector<std::vector<size_t> > col(n);
		for (size_t s = 0; s < n; ++s) {
			const Fsm::StatesSet& d = f.Destinations(s, ch);
			for (auto&& x : d) col[s].push_back(x + 1);
		}
		if (ch == Epsilon) { eps = col; continue; }
		if (ch == 256) continue;
		auto it = classes.find(col);
		int c;
		if (it == classes.end()) { cols.push_back(col); c = (int) cols.size(); classes[col] = c; } else c = it->second;
		if (bp.empty() || bp.back().second != c || ch == 258 || ch == 259) bp.push_back(std::make_pair((int) ch, c));
	}
	std::string r = "{\"n\":" + std::to_string(n) + ",\"i\":" + std::to_string(f.Initial() + 1) + ",\"det\":" + (orig.IsDetermined() ? "1" : "0") + ",\"f\":[";
	bool first = true;
	for (auto&& x : orig.Finals()) { if (!first) r += ','; first = false; r += std::to_string(x + 1); }
	r += "],\"bp\":[";
	for (size_t i = 0; i < bp.size(); ++i) { if (i) r += ','; r += "[" + std::to_string(bp[i].first) + "," + std::to_string(bp[i].second) + "]"; }
	r += "],\"t\":[";
	for (size_t s = 0; s < n; ++s) {
		if (s) r += ',';
		r += '[';
		for (size_t c = 0; c < cols.size(); ++c) { if (c) r += ','; r += Join(cols[c][s]); }
		r += ']';
	}
	r += "],\"e\":[";
	for (size_t s = 0; s < n; ++s) { if (s) r += ','; r += Join(eps[s]); }
	return r + "]}";
}


static std::string DumpScan(const IScan& sc, size_t limit) {
	if (!sc.CanDump()) throw Unsupported("dump");
	std::map<std::string, size_t> ids;
	std::vector<std::unique_ptr<IState> > states;
	std::vector<Obs> obs;
	std::vector<std::vector<size_t> > trans;
	std::vector<std::vector<size_t> > em;   // counters: by how much they grow on entering the state
	size_t odd = 0;                         // entries that found another growth than the first one
	{
		std::unique_ptr<IState> st(sc.NewState());
		sc.Initialize(*st);
		ids[sc.Key(*st)] = 0;
		obs.push_back(sc.Observe(*st));
		em.push_back(obs[0].res);
		states.push_back(std::move(st));
	}
	for (size_t i = 0; i < states.size(); ++i) {
		trans.push_back(std::vector<size_t>());
		for (unsigned ch = 0; ch < 260; ++ch) {
			if (ch == 256 || ch == 257) { trans[i].push_back(0); continue; }
			std::unique_ptr<IState> st(sc.CopyState(*states[i]));
			sc.Step(*st, ch);
			std::vector<size_t> grow;
			if (obs[0].hasRes) {
				Obs before = sc.Observe(*states[i]), after = sc.Observe(*st);
				for (size_t j = 0; j < after.res.size(); ++j) grow.push_back(after.res[j] - before.res[j]);
			}
			std::string k = sc.Key(*st);
			auto it = ids.find(k);
			size_t to;
			if (it == ids.end()) {
				to = states.size();
				if (to >= limit) throw DumpTooBig();
				ids[k] = to;
				em.push_back(grow);
				obs.push_back(sc.Observe(*st));
				states.push_back(std::move(st));
			} else {
				to = it->second;
				if (em[to] != grow) ++odd;
			}
			trans[i].push_back(to + 1);
		}
	}
	const size_t n = states.size();
	std::map<std::vector<size_t>, int> classes;
	std::vector<std::vector<size_t> > cols;
	std::vector<std::pair<int,int> > bp;
	for (unsigned ch = 0; ch < 260; ++ch) {
		if (ch == 256 || ch == 257) continue;
		std::vector<size_t> col;
		for (size_t s = 0; s < n; ++s) col.push_back(trans[s][ch]);
		auto it = classes.find(col);
		int c;
		if (it == classes.end()) { cols.push_back(col); c = (int) cols.size(); classes[col] = c; } else c = it->second;
		if (bp.empty() || bp.back().second != c || ch == 258 || ch == 259) bp.push_back(std::make_pair((int) ch, c));
	}
	std::string r = "{\"n\":" + std::to_string(n) + ",\"empty\":" + (sc.Empty() ? "1" : "0") + ",\"size\":" + std::to_string(sc.Size()) + ",\"rc\":" + std::to_string(sc.RegexpsCount()) + ",\"bp\":[";
	for (size_t i = 0; i < bp.size(); ++i) { if (i) r += ','; r += "[" + std::to_string(bp[i].first) + "," + std::to_string(bp[i].second) + "]"; }
	r += "],\"t\":[";
	for (size_t s = 0; s < n; ++s) {
		if (s) r += ',';
		std::vector<size_t> row;
		for (size_t c = 0; c < cols.size(); ++c) row.push_back(cols[c][s]);
		r += Join(row);
	}
	r += "],\"f\":[";
	for (size_t s = 0; s < n; ++s) { if (s) r += ','; r += obs[s].fin ? "1" : "0"; }
	r += "],\"d\":[";
	for (size_t s = 0; s < n; ++s) { if (s) r += ','; r += obs[s].dead ? "1" : "0"; }
	r += "],\"acc\":[";
	for (size_t s = 0; s < n; ++s) {
		if (s) r += ',';
		std::vector<size_t> acc(obs[s].acc);
		if (obs[0].hasRes) { acc.clear(); for (size_t j = 0; j < em[s].size(); ++j) if (em[s][j]) acc.push_back(j + 1); }
		r += Join(acc);
	}
	if (obs[0].hasRes) {
		r += "],\"em\":[";
		for (size_t s = 0; s < n; ++s) { if (s) r += ','; r += Join(em[s]); }
		r += "],\"odd\":[" + std::to_string(odd);
	}
	r += "],\"keys\":[";
	for (size_t s = 0; s < n; ++s) { if (s) r += ','; r += sc.Key(*states[s]); }
	return r + "]}";
}

static std::string ObsJson(const Obs& o) {
	std::string r = "{\"k\":" + o.key + ",\"f\":" + (o.fin ? "1" : "0") + ",\"d\":" + (o.dead ? "1" : "0") + ",\"a\":" + Join(o.acc);
	if (o.hasRes) r += ",\"r\":" + Join(o.res);
	return r + "}";
}

// ---- the machine ---------------------------------------------------------------------------
struct Buffer {
	std::string data;
	size_t pos;     // read position of sequential loads
	Buffer(): pos(0) {}
};

struct Machine {
	std::map<std::string, std::unique_ptr<Fsm> > fsm;
	std::map<std::string, ScanPtr> scan;
	std::map<std::string, Buffer> buf;
	std::map<std::string, std::unique_ptr<Lexer> > lexer;
	std::map<std::string, std::unique_ptr<Regexp> > easy;
	std::map<std::string, std::pair<const IScan*, std::unique_ptr<IState> > > state;
	std::vector<Mapped> maps;
	~Machine() {
		state.clear(); scan.clear();
		for (auto&& m : maps) munmap(m.base, m.len);
	}

	Fsm& F(const std::string& r) {
		auto& p = fsm[r];
		if (!p) p.reset(new Fsm());
		return *p;
	}
	IScan& S(const std::string& r) {
		auto i = scan.find(r);
		if (i == scan.end() || !i->second) throw Unsupported("no scanner " + r);
		return *i->second;
	}
	void SetScan(const std::string& r, IScan* s) {
		if (!s) throw Unsupported("no such scanner kind");
		scan[r].reset(s);
	}

	void SetupLexer(Lexer& lx, const std::string& opts) {
		for (size_t i = 0; i < opts.size(); ++i)
			switch (opts[i]) {
				case 'i': lx.AddFeature(Features::CaseInsensitive()); break;
				case 'a': lx.AddFeature(Features::AndNotSupport()); break;
				case 'g': lx.AddFeature(Features::GlueSimilarGlyphs()); break;
				case 'u': lx.SetEncoding(Encodings::Utf8()); break;
				case 'c': lx.AddFeature(Features::Capture(opts[++i] - '0')); break;
				case '-': break;
				case 'b': break;
				default: throw Unsupported("option");
			}
	}

	std::string Exec(const Toks& t);
	std::string Fop(const Toks& t);
	std::string Srun(const Toks& t);
	static RunItem Item(const std::string& s) {
		RunItem it; it.kind = s[0]; it.align = 0;
		if (it.kind == 'B' || it.kind == 'E') return it;
		size_t c = s.find(':');
		it.align = atoi(s.c_str() + 1);
		it.text = BytesOf(s.substr(c + 1));
		return it;
	}
};

std::string Machine::Fop(const Toks& t) {
	const std::string& op = t[1];
	Fsm& f = F(t[2]);
	if (op == "new") { f = Fsm(); }
	else if (op == "false") { f = Fsm::MakeFalse(); }
	else if (op == "raw") {
		Fsm g;
		g.Resize(Int0(t[3]));
		g.SetInitial(Int0(t[4]));
		std::vector<unsigned> e = Ints(t[5]), fin = Ints(t[6]), gone = Ints(t[7]);
		for (size_t i = 0; i + 2 < e.size(); i += 3) {
			if (e[i + 2] == Epsilon && i % 2) g.Connect(e[i], e[i + 1]);
			else g.Connect(e[i], e[i + 1], e[i + 2]);
		}
		for (size_t i = 0; i + 2 < gone.size(); i += 3) {
			if (gone[i + 2] == 999) g.Disconnect(gone[i], gone[i + 1]);
			else g.Disconnect(gone[i], gone[i + 1], gone[i + 2]);
		}
		g.ClearFinal();
		for (size_t i = 0; i < (size_t) Int0(t[3]); ++i) g.SetFinal(i, true);
		for (size_t i = 0; i < (size_t) Int0(t[3]); ++i) if (std::find(fin.begin(), fin.end(), i) == fin.end()) g.SetFinal(i, false);
		f = g;
	}
	else if (op == "copy") { Fsm g(F(t[3])); fsm[t[2]].reset(new Fsm(g)); }
	else if (op == "assign") { f = F(t[3]); }
	else if (op == "swap") { f.Swap(F(t[3])); }
	else if (op == "ch") { f.Append((char) Int0(t[3])); }
	else if (op == "str") { f.Append(StrOf(t[3])); }
	else if (op == "strs") { TVector<ystring> v; for (size_t i = 3; i < t.size(); ++i) v.push_back(StrOf(t[i])); f.AppendStrings(v); }
	else if (op == "dot") { f.AppendDot(); }
	else if (op == "special") { f.AppendSpecial(Int0(t[3])); }
	else if (op == "encdot") { if (t[3] == "u") Encodings::Utf8().AppendDot(f); else Encodings::Latin1().AppendDot(f); }
	else if (op == "cat") { f += F(t[3]); }
	else if (op == "or") { f |= F(t[3]); }
	else if (op == "and") { f &= F(t[3]); }
	else if (op == "cat3") { f = F(t[3]) + F(t[4]); }
	else if (op == "or3") { f = F(t[3]) | F(t[4]); }
	else if (op == "and3") { f = F(t[3]) & F(t[4]); }
	else if (op == "star") { f.Iterate(); }
	else if (op == "star2") { f = *F(t[3]); }
	else if (op == "not") { f.Complement(); }
	else if (op == "not2") { f = ~F(t[3]); }
	else if (op == "mul") { f *= (size_t) Int0(t[3]); }
	else if (op == "mul3") { f = F(t[3]) * (size_t) Int0(t[4]); }
	else if (op == "surround") { f.Surround(); }
	else if (op == "surround2") { f = F(t[3]).Surrounded(); }
	else if (op == "prepany") { f.PrependAnything(); }
	else if (op == "appany") { f.AppendAnything(); }
	else if (op == "rev") { f.Reverse(); }
	else if (op == "prefix") { f.MakePrefix(); }
	else if (op == "suffix") { f.MakeSuffix(); }
	else if (op == "rmeps") { f.RemoveEpsilons(); }
	else if (op == "rmdead") { f.RemoveDeadEnds(); }
	else if (op == "det") { return f.Determine(t.size() > 3 ? Int0(t[3]) : 0) ? "1" : "0"; }
	else if (op == "min") { f.Minimize(); }
	else if (op == "canon") { f.Canonize(t.size() > 3 ? Int0(t[3]) : 0); }
	else if (op == "sparse") { f.Sparse(); }
	else if (op == "unsparse") { f.Unsparse(); }
	else if (op == "approx") { f = CreateApproxFsm(f, Int0(t[3])); }
	else if (op == "import") { // union built by hand through the low-level interface
		Fsm& g = F(t[3]);
		size_t gi = g.Initial();
		size_t shift = f.Size();
		f.Import(g);
		TSet<size_t> gf; for (auto&& x : g.Finals()) gf.insert(x);
		f.Resize(f.Size() + 1);
		f.Connect(f.Size() - 1, f.Initial());
		f.Connect(f.Size() - 1, gi + shift);
		for (auto&& x : gf) f.SetFinal(x + shift, true);
		f.SetInitial(f.Size() - 1);
		f.SetIsDetermined(false);
	}
	else throw Unsupported("fop " + op);
	return "1";
}

std::string Machine::Srun(const Toks& t) {
	const IScan& sc = S(t[1]);
	std::unique_ptr<IState> st(sc.NewState());
	sc.Initialize(*st);
	std::string r = "[" + ObsJson(sc.Observe(*st));
	for (size_t i = 2; i < t.size(); ++i) {
		RunItem it = Item(t[i]);
		if (it.kind == 'B') sc.Step(*st, BeginMark);
		else if (it.kind == 'E') sc.Step(*st, EndMark);
		else if (it.kind == 's') for (auto&& b : it.text) sc.Step(*st, b);
		else if (it.kind == 'r' || it.kind == 'g') {
			const char* e; const char* b = PlaceText(it.text, it.align, it.kind == 'g', e);
			sc.Run(*st, b, e);
		} else throw Unsupported("run item");
		r += "," + ObsJson(sc.Observe(*st));
	}
	return r + "]";
}

// Pairs of scanners of selected kinds
struct PairRunner {
	template<class A, class B> static std::string Go(const A& a, const B& b, const std::vector<RunItem>& items);
};
std::string RunPair(const IScan& a, const IScan& b, const std::vector<RunItem>& items);

static std::string Esc(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { r += '?'; }
		else r += c;
	}
	return r + "\"";
}

std::string Machine::Exec(const Toks& t) {
	const std::string& c = t[0];
	if (c == "fparse") { // R opts cps
		TVector<wchar32> cps;
		for (unsigned x : Ints(t[3])) cps.push_back(x);
		Lexer lx;
		SetupLexer(lx, t[2]);
		lx.Assign(cps.begin(), cps.end());
		Fsm f = lx.Parse();
		fsm[t[1]].reset(new Fsm(f));
		return "1";
	}
	if (c == "fparseb") { // R opts bytes : decode the pattern with the option's encoding first
		std::string s = StrOf(t[3]);
		TVector<wchar32> cps;
		const Encoding& enc = t[2].find('u') != std::string::npos ? Encodings::Utf8() : Encodings::Latin1();
		enc.FromLocal(s.data(), s.data() + s.size(), std::back_inserter(cps));
		Lexer lx(cps);
		SetupLexer(lx, t[2]);
		F(t[1]) = lx.Parse();
		return "1";
	}
	if (c == "decodeall") { // enc prefix alphabet k : the prefix followed by each sequence of up to k bytes
		std::string pre = StrOf(t[2]), al = StrOf(t[3]), out = "[";
		const Encoding& enc = t[1] == "u" ? Encodings::Utf8() : Encodings::Latin1();
		size_t count = 1;
		for (unsigned j = 0; j <= Int0(t[4]); ++j, count *= al.size())
			for (size_t i = 0; i < count; ++i) {
				std::string s;
				for (size_t d = 0, r = i; d < j; ++d, r /= al.size()) s.insert(s.begin(), al[r % al.size()]);
				s = pre + s;
				Bytes bs(s.begin(), s.end());
				const char* e; const char* b = PlaceText(bs, 0, true, e);
				TVector<wchar32> cps;
				bool ok = true;
				try { enc.FromLocal(b, e, std::back_inserter(cps)); } catch (Pire::Error&) { ok = false; cps.clear(); }
				out += std::string(out.size() > 1 ? "," : "") + (ok ? "[1" : "[0") + (cps.empty() ? "" : "," ) + [](const std::string& j) { return j.substr(1, j.size() - 2); }(Join(cps)) + "]";
			}
		return out + "]";
	}
	if (c == "codes") { // enc from to step : every character's bytes, and what they are decoded to
		const Encoding& enc = t[1] == "u" ? Encodings::Utf8() : Encodings::Latin1();
		std::string out = "[";
		for (unsigned x = Int0(t[2]); x <= unsigned(Int0(t[3])); x += Int0(t[4])) {
			ystring b = enc.ToLocal(x);
			const char* at = b.data();
			long back = -1;
			if (!b.empty()) {
				back = enc.FromLocal(at, b.data() + b.size());
				if (at != b.data() + b.size()) back = -2;
			}
			std::vector<unsigned> bs;
			for (unsigned char ch : b) bs.push_back(ch);
			out += std::string(out.size() > 1 ? "," : "") + "[" + Join(bs) + "," + std::to_string(back) + "]";
		}
		return out + "]";
	}
	if (c == "decode") {
		std::string s = StrOf(t[2]);
		TVector<wchar32> cps;
		const Encoding& enc = t[1] == "u" ? Encodings::Utf8() : Encodings::Latin1();
		// guard page behind the bytes
		Bytes bs(s.begin(), s.end());
		const char* e; const char* b = PlaceText(bs, 0, true, e);
		enc.FromLocal(b, e, std::back_inserter(cps));
		return Join(cps);
	}
	if (c == "encode") {
		std::string r = (t[1] == "u" ? Encodings::Utf8() : Encodings::Latin1()).ToLocal((wchar32) strtoul(t[2].c_str(), 0, 10));
		Bytes bs(r.begin(), r.end());
		return Join(bs);
	}
	if (c == "lexnew") { lexer[t[1]].reset(new Lexer()); SetupLexer(*lexer[t[1]], t[2]); return "1"; }
	if (c == "lexparse") { // L R cps
		TVector<wchar32> cps;
		for (unsigned x : Ints(t[3])) cps.push_back(x);
		Lexer& lx = *lexer[t[1]];
		lx.Assign(cps.begin(), cps.end());
		F(t[2]) = lx.Parse();
		return "1";
	}
	if (c == "f") return Fop(t);
	if (c == "fdump") return DumpFsm(F(t[1]));
	if (c == "scompile") { // R type F [dist]
		Fsm f(F(t[3]));
		SetScan(t[1], MakeScan(t[2], f, t.size() > 4 ? Int0(t[4]) : 0));
		return "1";
	}
	if (c == "scompilein") { // compiles from the register itself
		SetScan(t[1], MakeScan(t[2], F(t[3]), t.size() > 4 ? Int0(t[4]) : 0));
		return "1";
	}
	if (c == "scount") { // R type re sep
		int simple;
		SetScan(t[1], MakeCount(t[2], F(t[3]), F(t[4]), &simple));
		return std::to_string(simple);
	}
	if (c == "scap") { // S type opts cps number
		TVector<wchar32> cps;
		for (unsigned x : Ints(t[4])) cps.push_back(x);
		Lexer lx;
		SetupLexer(lx, t[3]);
		lx.AddFeature(Features::Capture((size_t) Int0(t[5])));
		lx.Assign(cps.begin(), cps.end());
		Fsm f = lx.Parse();
		f.Surround();
		if (t[2] == "K") f.Determine();
		SetScan(t[1], MakeScan(t[2], f, 0));
		return "1";
	}
	if (c == "shalf") { SetScan(t[1], MakeHalf(t[2], F(t[3]), t[4])); return "1"; }
	if (c == "sempty") { SetScan(t[1], MakeEmpty(t[2])); return "1"; }
	if (c == "sglue") { SetScan(t[1], S(t[2]).Glue(S(t[3]), t.size() > 4 ? Int0(t[4]) : 0)); return S(t[1]).Empty() ? "0" : "1"; }
	if (c == "cycles") { // type limit lengths rests texts : the texts whose length divided by a length leaves a rest, glued one after another
		std::vector<unsigned> ps = Ints(t[3]), rs = Ints(t[4]);
		ScanPtr all;
		std::string empty;
		for (size_t i = 0; i < ps.size(); ++i) {
			Fsm f, rest;
			for (unsigned k = 0; k < ps[i]; ++k) f.AppendDot();
			for (unsigned k = 0; k < rs[i]; ++k) rest.AppendDot();
			f.Iterate();
			f += rest;
			ScanPtr one(MakeScan(t[1], f, 0));
			if (!i) { all.swap(one); continue; }
			ScanPtr g(all->Glue(*one, Int0(t[2])));
			empty += std::string(i > 1 ? "," : "") + (g->Empty() ? "1" : "0");
			all.swap(g);
		}
		std::string acc;
		for (unsigned n : Ints(t[5])) {
			std::string text(n, 'x');
			std::unique_ptr<IState> st(all->NewState());
			all->Initialize(*st);
			all->Run(*st, text.data(), text.data() + text.size());
			Obs o = all->Observe(*st);
			acc += std::string(acc.empty() ? "" : ",") + "[" + (o.fin ? "1" : "0") + "," + Join(o.acc) + "]";
		}
		return "{\"e\":[" + empty + "],\"n\":" + std::to_string(all->Size()) + ",\"c\":" + std::to_string(all->RegexpsCount()) + ",\"acc\":[" + acc + "]}";
	}
	if (c == "sconv") { SetScan(t[1], S(t[3]).Convert(t[2])); return "1"; }
	if (c == "scopy") { SetScan(t[1], S(t[2]).Clone()); return "1"; }
	if (c == "sassign") { S(t[1]).Assign(S(t[2])); return "1"; }
	if (c == "sswap") { S(t[1]).SwapWith(S(t[2])); return "1"; }
	if (c == "sstdswap") { S(t[1]).StdSwapWith(S(t[2])); return "1"; }
	if (c == "smove") { SetScan(t[1], S(t[2]).MoveClone()); return "1"; }
	if (c == "smoveassign") { S(t[1]).MoveAssign(S(t[2])); return "1"; }
	if (c == "sdel") { scan.erase(t[1]); return "1"; }
	if (c == "sinfo") { const IScan& s = S(t[1]); return "[" + std::string(s.Empty() ? "1" : "0") + "," + std::to_string(s.Size()) + "," + std::to_string(s.RegexpsCount()) + "]"; }
	if (c == "ssave") { // B S : append
		BufferOutput out;
		S(t[2]).Save(out);
		Buffer& b = buf[t[1]];
		b.data.append(out.Buffer().Data(), out.Buffer().Size());
		return std::to_string(out.Buffer().Size());
	}
	if (c == "sload") { // S B : from the current position
		Buffer& b = buf[t[2]];
		size_t left = b.data.size() - b.pos;
		std::unique_ptr<char[]> copy(new char[left + 1]);
		memcpy(copy.get(), b.data.data() + b.pos, left);
		MemoryInput in(copy.get(), left);
		try { S(t[1]).Load(in); }
		catch (std::ios_base::failure&) { throw Pire::Error("stream"); }    // the library's own streams report their end by throwing
		size_t used = (size_t) in.rdbuf()->sgetn(copy.get(), left);   // what remains
		b.pos += left - used;
		return std::to_string(left - used);
	}
	if (c == "smmap" || c == "smmapmis") { // S B : maps read-only memory ending at a guard page; returns consumed
		Buffer& b = buf[t[2]];
		size_t left = b.data.size() - b.pos;
		size_t mis = c == "smmapmis" ? Int0(t[3]) : 0;
		size_t len = (left + mis + 16 + PageSize() - 1) / PageSize() * PageSize();
		char* p = (char*) mmap(0, len + 2 * PageSize(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		mprotect(p + PageSize(), len, PROT_READ | PROT_WRITE);
		size_t pad = (8 - left % 8) % 8;
		char* d = p + PageSize() + len - left - (mis ? 8 : 0);
		d -= ((size_t) d) % 8;
		d += mis;
		(void) pad;
		memset(p + PageSize(), 0x5A, len);
		memcpy(d, b.data.data() + b.pos, left);
		mprotect(p + PageSize(), len, PROT_READ);
		Mapped m = { p, len + 2 * PageSize(), d, left };
		maps.push_back(m);
		const char* r = (const char*) S(t[1]).Mmap(d, left);
		b.pos += r - d;
		return std::to_string(r - d);
	}
	if (c == "bclear") { buf[t[1]] = Buffer(); return "1"; }
	if (c == "bcopy") { buf[t[1]] = buf[t[2]]; return "1"; }
	if (c == "bwrite") { Bytes x = BytesOf(t[2]); buf[t[1]].data.append(x.begin(), x.end()); return "1"; }
	if (c == "brewind") { buf[t[1]].pos = 0; return "1"; }
	if (c == "btrunc") { Buffer& b = buf[t[1]]; size_t n = Int0(t[2]); if (n < b.data.size()) b.data.resize(n); return "1"; }
	if (c == "bsize") return std::to_string(buf[t[1]].data.size());
	if (c == "bsame") return buf[t[1]].data == buf[t[2]].data ? "1" : "0";
	if (c == "bxor") { Buffer& b = buf[t[1]]; size_t n = Int0(t[2]); if (n < b.data.size()) b.data[n] ^= Int0(t[3]); return "1"; }
	if (c == "bold") { // B : the one scanner stored is given the form the previous version of the library saved it in; returns its size
		std::string& d = buf[t[1]].data;
		auto word = [&](size_t at) { ui32 x = 0; memcpy(&x, d.data() + at, sizeof(x)); return x; };
		if (d.size() < 32) throw Unsupported("bold");
		if (word(16) == ScannerIOTypes::LoadedScanner) {   // between jumps and tags there were the actions
			size_t jumps = ((size_t) word(24) * word(28) * sizeof(ui32) + 7) / 8 * 8;
			size_t tags = ((size_t) word(24) + 7) / 8 * 8;
			if (d.size() < tags + jumps) throw Unsupported("bold");
			d.insert(d.size() - tags, std::string(jumps, '\1'));
		}
		d[4] = 6;
		return std::to_string(d.size());
	}
	if (c == "bget") { Buffer& b = buf[t[1]]; Bytes x; size_t o = Int0(t[2]), l = Int0(t[3]); for (size_t i = o; i < o + l && i < b.data.size(); ++i) x.push_back(b.data[i]); return Join(x); }
	if (c == "trunctest") { // S type B step : every truncation must be refused; also by the Mmap. Returns accepted lengths
		Buffer& b = buf[t[3]];
		std::vector<long> bad;
		size_t step = Int0(t[4]);
		for (size_t n = 0; n < b.data.size(); n += (n < 400 || n + 64 > b.data.size()) ? 1 : step) {
			{
				ScanPtr s(MakeEmpty(t[2]));
				std::istringstream in(b.data.substr(0, n));
				bool ok = false;
				try { s->Load(in); ok = true; } catch (Pire::Error&) {} catch (std::ios_base::failure&) {}
				if (ok) bad.push_back((long) n + 1);
			}
			{
				ScanPtr s(MakeEmpty(t[2]));
				size_t len = (n + 16 + PageSize() - 1) / PageSize() * PageSize();
				char* p = (char*) mmap(0, len + PageSize(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				mprotect(p, len, PROT_READ | PROT_WRITE);
				char* d = p + len - n;
				d -= ((size_t) d) % 8;
				// the bytes behind the cut look like the original ones: reading them would go unnoticed otherwise
				memset(p, 0x5A, len);
				memcpy(d, b.data.data(), n);
				bool ok = false;
				try { s->Mmap(d, n); ok = true; } catch (Pire::Error&) {} catch (Unsupported&) {}
				if (ok) bad.push_back(-(long) n - 1);
				s.reset();
				munmap(p, len + PageSize());
			}
		}
		return Join(bad);
	}
	if (c == "sdump") return DumpScan(S(t[1]), t.size() > 2 ? Int0(t[2]) : 2000);
	if (c == "srun") return Srun(t);
	if (c == "sfind") { // S what m1 m2 align text
		Bytes x = BytesOf(t[6]);
		bool guard = t[5][0] == 'g';
		const char* e; const char* b = PlaceText(x, guard ? 0 : Int0(t[5]), guard, e);
		const char* r = 0;
		S(t[1]).Find(t[2], b, e, t[3] == "1", t[4] == "1", r);
		if (!r) return "-1";
		if (t[2] == "ls" || t[2] == "ss") return std::to_string((e - 1) - r); // number of bytes taken from the right end
		return std::to_string(r - b);
	}
	if (c == "sfindall") { // S align text : all four searches under all mark combinations
		Bytes x = BytesOf(t[3]);
		bool guard = t[2][0] == 'g';
		const char* e; const char* b = PlaceText(x, guard ? 0 : Int0(t[2]), guard, e);
		std::vector<long> out;
		for (const char* w : { "lp", "sp", "ls", "ss" })
			for (int m = 0; m < 4; ++m) {
				const char* r = 0;
				S(t[1]).Find(w, b, e, m & 1, m & 2, r);
				out.push_back(!r ? -1 : w[1] == 's' ? (e - 1) - r : r - b);
			}
		return Join(out);
	}
	if (c == "smatch") { // S how text
		Bytes x = BytesOf(t[3]);
		const char* e; const char* b = PlaceText(x, 0, false, e);
		return S(t[1]).Matches(t[2], b, e) ? "1" : "0";
	}
	if (c == "spair") { // A B items...
		std::vector<RunItem> items;
		for (size_t i = 3; i < t.size(); ++i) items.push_back(Item(t[i]));
		return RunPair(S(t[1]), S(t[2]), items);
	}
	if (c == "scounts") { // S texts... : counters after Begin text End for each
		std::string r = "[";
		for (size_t i = 2; i < t.size(); ++i) {
			const IScan& sc = S(t[1]);
			std::unique_ptr<IState> st(sc.NewState());
			sc.Initialize(*st);
			sc.Step(*st, BeginMark);
			Bytes x = BytesOf(t[i]);
			const char* e; const char* b = PlaceText(x, 0, false, e);
			sc.Run(*st, b, e);
			sc.Step(*st, EndMark);
			if (i > 2) r += ',';
			r += Join(sc.Observe(*st).res);
		}
		return r + "]";
	}
	if (c == "scountall") { // S letters n : counters after Begin w and after Begin w End for all texts w up to the length n, the shorter first
		const IScan& sc = S(t[1]);
		Bytes letters = BytesOf(t[2]);
		size_t n = Int0(t[3]);
		std::unique_ptr<IState> st(sc.NewState());
		sc.Initialize(*st);
		sc.Step(*st, BeginMark);
		std::vector<std::unique_ptr<IState>> level, next;
		level.push_back(std::unique_ptr<IState>(sc.CopyState(*st)));
		std::string r = "[";
		for (size_t len = 0; len <= n; ++len) {
			next.clear();
			for (size_t i = 0; i < level.size(); ++i) {
				if (r.size() > 1) r += ',';
				r += "[" + Join(sc.Observe(*level[i]).res);
				std::unique_ptr<IState> e(sc.CopyState(*level[i]));
				sc.Step(*e, EndMark);
				r += "," + Join(sc.Observe(*e).res) + "]";
				for (size_t j = 0; len < n && j < letters.size(); ++j) {
					std::unique_ptr<IState> x(sc.CopyState(*level[i]));
					char b = (char) letters[j];
					if (j % 2) sc.Run(*x, &b, &b + 1); else sc.Step(*x, letters[j]);
					next.push_back(std::move(x));
				}
			}
			level.swap(next);
		}
		return r + "]";
	}
	if (c == "easy") { // R opts bytes
		Options o;
		if (t[2].find('i') != std::string::npos) o.Add(Features::CaseInsensitive());
		if (t[2].find('a') != std::string::npos) o.Add(Features::AndNotSupport());
		if (t[2].find('u') != std::string::npos) o.Add(Encodings::Utf8());
		std::string p = StrOf(t[3]);
		easy[t[1]].reset(new Regexp(p, o));
		return "1";
	}
	if (c == "easyopt") { // R opts bytes: through the operator syntax
		std::string p = StrOf(t[3]);
		bool i = t[2].find('i') != std::string::npos, a = t[2].find('a') != std::string::npos, u = t[2].find('u') != std::string::npos;
		Regexp* r;
		if (i && a && u) r = new Regexp(p, I | ANDNOT | UTF8);
		else if (i && a) r = new Regexp(p, I | ANDNOT);
		else if (i && u) r = new Regexp(p, I | UTF8);
		else if (a && u) r = new Regexp(p, UTF8 | ANDNOT);
		else if (i) r = new Regexp(p, I);
		else if (a) r = new Regexp(p, ANDNOT);
		else if (u) r = new Regexp(p, UTF8);
		else r = new Regexp(p, LATIN1);
		easy[t[1]].reset(r);
		return "1";
	}
	if (c == "inline") { // mode R source: the generator tool run on a source text; the scanners it puts there become R1, R2, ...
		std::string src = StrOf(t[3]);
		InlineResult r = RunInline(src, t[1] == "f");
		std::string texts, lines;
		for (size_t i = 0; i < r.texts.size(); ++i) {
			texts += std::string(i ? "," : "") + Join(Bytes(r.texts[i].begin(), r.texts[i].end()));
			if (i < r.lines.size()) lines += std::string(i ? "," : "") + std::to_string(r.lines[i]);
		}
		for (size_t i = 0; i < r.data.size(); ++i) {
			const std::string& d = r.data[i];
			size_t len = (d.size() + PageSize()) / PageSize() * PageSize();
			char* p = (char*) mmap(0, len + PageSize(), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
			mprotect(p, len, PROT_READ | PROT_WRITE);
			char* at = p + (len - d.size()) / 8 * 8;
			memcpy(at, d.data(), d.size());
			mprotect(p, len, PROT_READ);
			Mapped m = { p, len + PageSize(), at, d.size() };
			maps.push_back(m);
			std::string reg = t[2] + std::to_string(i + 1);
			SetScan(reg, MakeEmpty("S"));
			if (S(reg).Mmap(at, d.size()) != at + d.size()) throw std::runtime_error("size of the data");
		}
		return "{\"t\":[" + texts + "],\"l\":[" + lines + "]}";
	}
	if (c == "easyc") { easy[t[1]].reset(new Regexp(StrOf(t[2]).c_str())); return "1"; }
	if (c == "easyscan") { // R S: an expression made of a compiled scanner
		const IScan& s = S(t[2]);
		if (s.Type() == "S") easy[t[1]].reset(new Regexp(*static_cast<const Scanner*>(s.Raw())));
		else if (s.Type() == "W") easy[t[1]].reset(new Regexp(*static_cast<const SlowScanner*>(s.Raw())));
		else throw Unsupported("kind");
		return "1";
	}
	if (c == "easycopy") { Regexp* r = new Regexp(*easy[t[2]]); easy[t[1]].reset(r); return "1"; }
	if (c == "easyassign") { *easy[t[1]] = *easy[t[2]]; return "1"; }
	if (c == "easyswap") { std::swap(*easy[t[1]], *easy[t[2]]); return "1"; }
	if (c == "easydel") { easy.erase(t[1]); return "1"; }
	if (c == "easymatch") { // R texts...  three ways each: range, C string (if no NUL), std::string, operator
		std::vector<int> out;
		for (size_t i = 2; i < t.size(); ++i) {
			std::string x = StrOf(t[i]);
			const Regexp& re = *easy[t[1]];
			Bytes bs(x.begin(), x.end());
			const char* e; const char* b = PlaceText(bs, 0, true, e);
			int v = re.Matches(b, e) ? 1 : 0;
			int v2 = re.Matches(x) ? 1 : 0;
			int v3 = x.find('\0') == std::string::npos ? (re.Matches(x.c_str()) ? 1 : 0) : v;
			int v4 = (x ==~ re) ? 1 : 0;
			out.push_back(v == v2 && v == v3 && v == v4 ? v : 9);
		}
		return Join(out);
	}
	throw Unsupported("command " + c);
}

IScan* MakeEmpty(const std::string& t) {
	IScan* r;
	if ((r = MakeEmptyA(t))) return r;
	if ((r = MakeEmptyB(t))) return r;
	if ((r = MakeEmptyC(t))) return r;
	if ((r = MakeEmptyD(t))) return r;
	throw Unsupported("kind " + t);
}
IScan* MakeScan(const std::string& t, Fsm& f, size_t d) {
	IScan* r;
	if ((r = MakeScanA(t, f, d))) return r;
	if ((r = MakeScanB(t, f, d))) return r;
	if ((r = MakeScanC(t, f, d))) return r;
	if ((r = MakeScanD(t, f, d))) return r;
	throw Unsupported("kind " + t);
}

// ---- main loop -----------------------------------------------------------------------------
// results so far of the case being run, readable by the parent process after a crash
static const size_t g_partCap = 64 << 20;
static volatile size_t* g_partLen;
static char* g_part;
static void RunCase(const std::string& line) {
	std::istringstream is(line);
	std::string id;
	is >> id;
	std::string out = "{\"id\":" + id + ",\"res\":[";
	Machine* m = new Machine();
	*g_partLen = 0;
	bool first = true;
	Toks cur;
	std::string tok;
	auto flush = [&]() {
		if (cur.empty()) return;
		std::string r;
		try { r = m->Exec(cur); }
		catch (Unsupported& e) { r = std::string("{\"unsupported\":") + Esc(e.what()) + "}"; }
		catch (DumpTooBig&) { r = "{\"toobig\":1}"; }
		catch (Pire::Error& e) { r = "{\"err\":1}"; }
		catch (std::bad_alloc&) { r = "{\"nomem\":1}"; }
		catch (std::exception& e) { r = std::string("{\"exc\":") + Esc(e.what()) + "}"; }
		if (r.size() > 60000) r = "{\"toobig\":1}";
		if (!first) out += ',';
		first = false;
		out += r;
		if (*g_partLen + r.size() + 1 < g_partCap) {
			if (*g_partLen) g_part[(*g_partLen)++] = ',';
			memcpy(g_part + *g_partLen, r.data(), r.size());
			*g_partLen += r.size();
		}
		cur.clear();
	};
	while (is >> tok) {
		if (tok == ";") flush(); else cur.push_back(tok);
	}
	flush();
	delete m;
	out += "]}\n";
	size_t w = 0;
	while (w < out.size()) {
		ssize_t n = write(1, out.data() + w, out.size() - w);
		if (n <= 0) _exit(9);
		w += n;
	}
}

int main(int argc, char** argv) {
	g_dir = argv[0];
	g_dir.resize(g_dir.rfind('/') + 1);
	int tmo = argc > 1 ? atoi(argv[1]) : 20;
	size_t mem = argc > 2 ? strtoul(argv[2], 0, 10) : 3000;
	std::vector<std::string> cases;
	std::string line;
	while (std::getline(std::cin, line)) if (!line.empty()) cases.push_back(line);
	volatile size_t* at = (volatile size_t*) mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_partLen = at + 1;
	g_part = (char*) mmap(0, g_partCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	size_t i = 0;
	while (i < cases.size()) {
		*at = i;
		pid_t pid = fork();
		if (!pid) {
			struct rlimit rl = { mem << 20, mem << 20 };
			setrlimit(RLIMIT_AS, &rl);
			struct rlimit nc = { 0, 0 };
			setrlimit(RLIMIT_CORE, &nc);
			int dn = open("/dev/null", O_WRONLY);
			dup2(dn, 2);
			for (; i < cases.size(); ++i) {
				*at = i;
				alarm(tmo);
				RunCase(cases[i]);
			}
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		i = *at;
		std::string id = cases[i].substr(0, cases[i].find(' '));
		std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "hang" : "signal") : "exit";
		int num = WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st);
		std::string out = "{\"id\":" + id + ",\"crash\":\"" + why + "\",\"num\":" + std::to_string(num) + ",\"res\":[" + std::string(g_part, *g_partLen) + "]}\n";
		if (write(1, out.data(), out.size()) < 0) return 9;
		++i;
	}
	return 0;
}
