// Pairs of scanners run together.
#include "tscan.h"
#include <iostream>
using namespace Pire;

static std::string Res(const Obs& o) {
	std::string r = "[";
	for (size_t i = 0; i < o.res.size(); ++i) r += (i ? "," : "") + std::to_string(o.res[i]);
	return r + "]";
}
template<class A, class B> static std::string GoAB(const TScan<A>& a, const TScan<B>& b, const std::vector<RunItem>& items) {
	typedef ScannerPair<A, B> P;
	P pair(a.s, b.s);
	typename P::State st;
	pair.Initialize(st);
	std::string r = "[";
	bool first = true;
	auto emit = [&]() {
		TState<A> x; x.st = st.first;
		TState<B> y; y.st = st.second;
		Obs o1 = a.Observe(x), o2 = b.Observe(y);
		if (!first) r += ',';
		first = false;
		r += "[" + o1.key + "," + o2.key + "," + (pair.Final(st) ? "1" : "0") + "," + (pair.Dead(st) ? "1" : "0") + "," + (o1.fin ? "1" : "0") + "," + (o2.fin ? "1" : "0") + ","
			+ (o1.dead ? "1" : "0") + "," + (o2.dead ? "1" : "0") + "," + Res(o1) + "," + Res(o2) + "]";
	};
	emit();
	for (auto&& it : items) {
		if (it.kind == 'B') Pire::Step(pair, st, BeginMark);
		else if (it.kind == 'E') Pire::Step(pair, st, EndMark);
		else if (it.kind == 's') for (auto&& c : it.text) Pire::Step(pair, st, c);
		else {
			const char* e; const char* t = PlaceText(it.text, it.align, it.kind == 'g', e);
			if (it.kind == 'p') Pire::Run(a.s, b.s, st.first, st.second, t, e);   // the two-scanner function
			else Pire::Run(pair, st, t, e);
		}
		emit();
	}
	return r + "]";
}
template<class A> static std::string GoA(const TScan<A>& a, const IScan& b, const std::vector<RunItem>& items) {
#define WITH(K) if (auto* y = dynamic_cast<const TScan<K>*>(&b)) return GoAB(a, *y, items);
	WITH(Scanner) WITH(NonrelocScanner) WITH(SimpleScanner) WITH(ScannerNoMask) WITH(SlowScanner) WITH(HalfFinalScanner) WITH(AdvancedCountingScanner) WITH(CapturingScanner)
	throw Unsupported("pair");
}
#define FIRST(K) if (auto* x = dynamic_cast<const TScan<K>*>(&a)) return GoA(*x, b, items);
#ifdef PAIRS2
std::string RunPair2(const IScan& a, const IScan& b, const std::vector<RunItem>& items) {
	FIRST(SlowScanner) FIRST(HalfFinalScanner) FIRST(AdvancedCountingScanner) FIRST(CapturingScanner)
	throw Unsupported("pair");
}
#else
std::string RunPair2(const IScan& a, const IScan& b, const std::vector<RunItem>& items);
std::string RunPair(const IScan& a, const IScan& b, const std::vector<RunItem>& items) {
	FIRST(Scanner) FIRST(NonrelocScanner) FIRST(SimpleScanner) FIRST(ScannerNoMask)
	return RunPair2(a, b, items);
}
#endif
