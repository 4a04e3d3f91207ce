// Typed wrappers over the library's scanners.
#pragma once
#include "driver.h"

// ---- traits -------------------------------------------------------------------------------
template<class S> struct Traits {
	enum { mmap = 1, glue = 1, accepted = 1, index = 1, results = 0, find = 1, regexps = 1, save = 1, dump = 1, acts = 0, stdswap = 0 };
};
struct NonrelocTraits { enum { mmap = 0, glue = 1, accepted = 1, index = 1, results = 0, find = 1, regexps = 1, save = 1, dump = 1, acts = 0, stdswap = 0 }; };
template<> struct Traits<Pire::NonrelocScanner> : NonrelocTraits {};
template<> struct Traits<Pire::NonrelocScannerNoMask> : NonrelocTraits {};
template<> struct Traits<Pire::SimpleScanner> { enum { mmap = 1, glue = 0, accepted = 1, index = 1, results = 0, find = 1, regexps = 1, save = 1, dump = 1 }; };
template<> struct Traits<Pire::SlowScanner> { enum { mmap = 1, glue = 0, accepted = 1, index = 0, results = 0, find = 1, regexps = 1, save = 1, dump = 1 }; };
struct HalfTraits { enum { mmap = 1, glue = 1, accepted = 1, index = 1, results = 1, find = 1, regexps = 1, save = 1, dump = 1 }; };
template<> struct Traits<Pire::HalfFinalScanner> : HalfTraits {};
template<> struct Traits<Pire::HalfFinalScannerNoMask> : HalfTraits {};
struct NonrelocHalfTraits { enum { mmap = 0, glue = 1, accepted = 1, index = 1, results = 1, find = 1, regexps = 1, save = 1, dump = 1 }; };
template<> struct Traits<Pire::NonrelocHalfFinalScanner> : NonrelocHalfTraits {};
template<> struct Traits<Pire::NonrelocHalfFinalScannerNoMask> : NonrelocHalfTraits {};
struct CountTraits { enum { mmap = 1, glue = 1, accepted = 0, index = 1, results = 1, find = 0, regexps = 1, save = 1, dump = 0 }; };
template<> struct Traits<Pire::CountingScanner> : CountTraits {};
template<> struct Traits<Pire::AdvancedCountingScanner> : CountTraits {};
template<> struct Traits<Pire::NoGlueLimitCountingScanner> : CountTraits {};
template<> struct Traits<Pire::CapturingScanner> { enum { mmap = 1, glue = 0, accepted = 0, index = 1, results = 2, find = 0, regexps = 1, save = 1, dump = 0 }; };
template<> struct Traits<Pire::SlowCapturingScanner> { enum { mmap = 1, glue = 0, accepted = 0, index = 0, results = 3, find = 0, regexps = 0, save = 1, dump = 0 }; };

template<int N> struct Int {};

template<class S> struct TState : IState {
	typename S::State st;
};

template<class S> struct TScan : IScan {
	S s;
	std::string type;
	typedef Traits<S> T;
	explicit TScan(const std::string& t): s(), type(t) {}
	TScan(const std::string& t, const S& x): s(x), type(t) {}
	TScan(const std::string& t, S* x, int): s(std::move(*x)), type(t) {}
	static TScan& Of(IScan& x) { return dynamic_cast<TScan&>(x); }
	static const TScan& Of(const IScan& x) { return dynamic_cast<const TScan&>(x); }
	static typename S::State& St(IState& x) { return static_cast<TState<S>&>(x).st; }
	static const typename S::State& St(const IState& x) { return static_cast<const TState<S>&>(x).st; }

	std::string Type() const { return type; }
	IScan* Clone() const { return new TScan(type, s); }
	void Assign(IScan& o) { DoAssign(Of(o), (S*) 0); }
	template<class X> void DoAssign(TScan& o, X*) { s = o.s; }
	void DoAssign(TScan&, Pire::SlowCapturingScanner*) { throw Unsupported("assign"); }
	void SwapWith(IScan& o) { s.Swap(Of(o).s); }
	void StdSwapWith(IScan& o) { DoStdSwap(Of(o), (S*) 0); }
	template<class X> void DoStdSwap(TScan& o, X*) { using std::swap; swap(s, o.s); }
	void DoStdSwap(TScan&, Pire::SlowCapturingScanner*) { throw Unsupported("swap"); }
	IScan* MoveClone() { return new TScan(type, &s, 0); }
	void MoveAssign(IScan& o) { DoMoveAssign(Of(o), (S*) 0); }
	template<class X> void DoMoveAssign(TScan& o, X*) { s = std::move(o.s); }
	void DoMoveAssign(TScan&, Pire::SlowCapturingScanner*) { throw Unsupported("assign"); }
	void Save(std::ostream& o) const { s.Save(&o); }
	void Load(std::istream& i) { s.Load(&i); }
	const void* Mmap(const void* p, size_t n) { return DoMmap(p, n, Int<T::mmap>()); }
	const void* DoMmap(const void* p, size_t n, Int<1>) { return s.Mmap(p, n); }
	const void* DoMmap(const void*, size_t, Int<0>) { throw Unsupported("mmap"); }
	bool Empty() const { return s.Empty(); }
	size_t Size() const { return s.Size(); }
	size_t RegexpsCount() const { return DoCount(Int<T::regexps>()); }
	size_t DoCount(Int<1>) const { return s.RegexpsCount(); }
	size_t DoCount(Int<0>) const { return 0; }
	IScan* Glue(const IScan& o, size_t max) const { return DoGlue(Of(o), max, Int<T::glue>()); }
	IScan* DoGlue(const TScan& o, size_t max, Int<1>) const {
		S r = max ? S::Glue(s, o.s, max) : S::Glue(s, o.s);
		return new TScan(type, r);
	}
	IScan* DoGlue(const TScan&, size_t, Int<0>) const { throw Unsupported("glue"); }
	IScan* Convert(const std::string& to) const;
	IState* NewState() const { return new TState<S>(); }
	IState* CopyState(const IState& x) const { return new TState<S>(static_cast<const TState<S>&>(x)); }
	void Initialize(IState& x) const { s.Initialize(St(x)); }
	void Step(IState& x, unsigned ch) const { Pire::Step(s, St(x), ch); }
	void Run(IState& x, const char* b, const char* e) const { Pire::Run(s, St(x), b, e); }

	std::string Key(const IState& x) const { return DoKey(St(x), Int<T::index>()); }
	std::string DoKey(const typename S::State& st, Int<1>) const { return std::to_string(s.StateIndex(st) + 1); }
	std::string DoKey(const typename S::State& st, Int<0>) const { return SlowKey(st); }
	static std::string SlowKey(const Pire::SlowScanner::State& st) {
		std::vector<unsigned> v(st.states.begin(), st.states.end());
		std::sort(v.begin(), v.end());
		std::string r = "[";
		for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += std::to_string(v[i] + 1); }
		return r + "]";
	}
	static std::string SlowKey(const Pire::SlowCapturingScanner::State&) { return "0"; }

	Obs Observe(const IState& x) const {
		Obs o;
		o.key = Key(x);
		Verdict(St(x), o, Int<T::results>());
		Accepted(St(x), o, Int<T::accepted>());
		return o;
	}
	void Verdict(const typename S::State& st, Obs& o, Int<0>) const { o.fin = s.Final(st); o.dead = s.Dead(st); }
	void Verdict(const typename S::State& st, Obs& o, Int<1>) const {
		o.fin = s.Final(st); o.dead = s.Dead(st); o.hasRes = true;
		for (size_t i = 0; i < s.RegexpsCount(); ++i) o.res.push_back(st.Result(i));
	}
	void Verdict(const typename S::State& st, Obs& o, Int<2>) const {
		o.fin = s.Final(st); o.dead = 0; o.hasRes = true;
		if (st.Captured()) { o.res.push_back(st.Begin()); o.res.push_back(st.End()); }
	}
	void Verdict(const typename S::State& st, Obs& o, Int<3>) const {
		o.hasRes = true;
		Pire::SlowCapturingScanner::SingleState fin;
		if (s.GetCapture(st, fin)) {
			o.fin = 1;
			o.res.push_back(fin.HasBegin() ? fin.GetBegin() : 1000000);
			o.res.push_back(fin.HasEnd() ? fin.GetEnd() : 1000000);
		}
	}
	void Accepted(const typename S::State& st, Obs& o, Int<1>) const {
		typename S::State c(st);
		auto r = s.AcceptedRegexps(c);
		for (auto i = r.first; i != r.second; ++i) o.acc.push_back(*i + 1);
	}
	void Accepted(const typename S::State&, Obs&, Int<0>) const {}

	void Find(const std::string& w, const char* b, const char* e, bool m1, bool m2, const char*& ret) const { DoFind(w, b, e, m1, m2, ret, Int<T::find>()); }
	void DoFind(const std::string& w, const char* b, const char* e, bool m1, bool m2, const char*& ret, Int<1>) const {
		if (w == "lp") ret = Pire::LongestPrefix(s, b, e, m1, m2);
		else if (w == "sp") ret = Pire::ShortestPrefix(s, b, e, m1, m2);
		else if (w == "ls") ret = Pire::LongestSuffix(s, e - 1, b - 1, m1, m2);
		else if (w == "ss") ret = Pire::ShortestSuffix(s, e - 1, b - 1, m1, m2);
		else throw Unsupported(w);
	}
	void DoFind(const std::string&, const char*, const char*, bool, bool, const char*&, Int<0>) const { throw Unsupported("find"); }
	bool Matches(const std::string& w, const char* b, const char* e) const { return DoMatches(w, b, e, Int<T::find>()); }
	bool DoMatches(const std::string& w, const char* b, const char* e, Int<1>) const {
		if (w == "m") return Pire::Matches(s, b, e);
		if (w == "r") return Pire::Runner(s).Run(b, e);
		if (w == "rbe") return Pire::Runner(s).Begin().Run(b, e).End();
		if (w == "nrbe") return !!Pire::Runner(s).Begin().Run(std::string(b, e)).End();
		if (w == "rst") { typename S::State st; s.Initialize(st); return Pire::Runner(s, st).Begin().Run(b, e - b).End(); }
		throw Unsupported(w);
	}
	bool DoMatches(const std::string&, const char*, const char*, Int<0>) const { throw Unsupported("matches"); }
	bool CanDump() const { return T::dump; }
	const void* Raw() const { return &s; }
};

template<class S> IScan* TScan<S>::Convert(const std::string&) const { throw Unsupported("convert"); }
