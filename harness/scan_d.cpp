#include "tscan.h"
using namespace Pire;
IScan* MakeEmptyD(const std::string& t) {
	if (t == "C") return new TScan<CountingScanner>(t);
	if (t == "A") return new TScan<AdvancedCountingScanner>(t);
	if (t == "G") return new TScan<NoGlueLimitCountingScanner>(t);
	return 0;
}
IScan* MakeScanD(const std::string&, Fsm&, size_t) { return 0; }
IScan* MakeCount(const std::string& t, const Fsm& re, const Fsm& sep, int* simple) {
	bool b = false;
	IScan* r = 0;
	*simple = -1;
	if (t == "C") r = new TScan<CountingScanner>(t, CountingScanner(re, sep));
	if (t == "A") { r = new TScan<AdvancedCountingScanner>(t, AdvancedCountingScanner(re, sep, &b)); *simple = b; }
	if (t == "G") { r = new TScan<NoGlueLimitCountingScanner>(t, NoGlueLimitCountingScanner(re, sep, &b)); *simple = b; }
	return r;
}
