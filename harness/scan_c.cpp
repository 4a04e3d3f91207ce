#include "tscan.h"
using namespace Pire;
IScan* MakeEmptyC(const std::string& t) {
	if (t == "H") return new TScan<HalfFinalScanner>(t);
	if (t == "HN") return new TScan<NonrelocHalfFinalScanner>(t);
	if (t == "HM") return new TScan<HalfFinalScannerNoMask>(t);
	if (t == "HNM") return new TScan<NonrelocHalfFinalScannerNoMask>(t);
	return 0;
}
template<class F> static IScan* Make(const std::string& t, const F& f) {
	if (t == "H") return new TScan<HalfFinalScanner>(t, HalfFinalScanner(f));
	if (t == "HN") return new TScan<NonrelocHalfFinalScanner>(t, NonrelocHalfFinalScanner(f));
	if (t == "HM") return new TScan<HalfFinalScannerNoMask>(t, HalfFinalScannerNoMask(f));
	if (t == "HNM") return new TScan<NonrelocHalfFinalScannerNoMask>(t, NonrelocHalfFinalScannerNoMask(f));
	return 0;
}
IScan* MakeScanC(const std::string& t, Fsm& f, size_t d) {
	if (d) {
		if (t == "H") return new TScan<HalfFinalScanner>(t, f.Compile<HalfFinalScanner>(d));
		if (t == "HN") return new TScan<NonrelocHalfFinalScanner>(t, f.Compile<NonrelocHalfFinalScanner>(d));
		return 0;
	}
	return Make(t, f);
}
// mode: "d" plain, "s" MakeScanner, "n"/"N" non-greedy counter (without/with simplification... see below), "g"/"G" greedy
IScan* MakeHalf(const std::string& t, const Fsm& re, const std::string& mode) {
	HalfFinalFsm h(re);
	if (mode == "s") h.MakeScanner();
	else if (mode == "n") h.MakeNonGreedyCounter(true, true);
	else if (mode == "n0") h.MakeNonGreedyCounter(true, false);
	else if (mode == "x") h.MakeNonGreedyCounter(false, true);
	else if (mode == "x0") h.MakeNonGreedyCounter(false, false);
	else if (mode == "g") h.MakeGreedyCounter(true);
	else if (mode == "g0") h.MakeGreedyCounter(false);
	else throw Unsupported(mode);
	return Make(t, h);
}
