#include "tscan.h"
using namespace Pire;
IScan* MakeEmptyB(const std::string& t) {
	if (t == "I") return new TScan<SimpleScanner>(t);
	if (t == "W") return new TScan<SlowScanner>(t);
	if (t == "K") return new TScan<CapturingScanner>(t);
	if (t == "KS") return new TScan<SlowCapturingScanner>(t);
	return 0;
}
IScan* MakeScanB(const std::string& t, Fsm& f, size_t d) {
	if (t == "I") return new TScan<SimpleScanner>(t, f.Compile<SimpleScanner>(d));
	if (t == "W") { if (d) return new TScan<SlowScanner>(t, SlowScanner(f, false, true, d)); return new TScan<SlowScanner>(t, f.Compile<SlowScanner>()); }
	if (t == "K") return new TScan<CapturingScanner>(t, f.Compile<CapturingScanner>(d));
	if (t == "KS") return new TScan<SlowCapturingScanner>(t, f.Compile<SlowCapturingScanner>(d));
	return 0;
}
