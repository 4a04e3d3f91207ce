#include "tscan.h"
using namespace Pire;
template<> IScan* TScan<Scanner>::Convert(const std::string& to) const {
	if (to == "N") return new TScan<NonrelocScanner>(to, NonrelocScanner(s));
	if (to == "S") return new TScan<Scanner>(to, Scanner(s));
	throw Unsupported("convert");
}
template<> IScan* TScan<NonrelocScanner>::Convert(const std::string& to) const {
	if (to == "S") return new TScan<Scanner>(to, Scanner(s));
	if (to == "N") return new TScan<NonrelocScanner>(to, NonrelocScanner(s));
	throw Unsupported("convert");
}
template<> IScan* TScan<ScannerNoMask>::Convert(const std::string& to) const {
	if (to == "NM") return new TScan<NonrelocScannerNoMask>(to, NonrelocScannerNoMask(s));
	throw Unsupported("convert");
}
template<> IScan* TScan<NonrelocScannerNoMask>::Convert(const std::string& to) const {
	if (to == "SM") return new TScan<ScannerNoMask>(to, ScannerNoMask(s));
	throw Unsupported("convert");
}
IScan* MakeEmptyA(const std::string& t) {
	if (t == "S") return new TScan<Scanner>(t);
	if (t == "N") return new TScan<NonrelocScanner>(t);
	if (t == "SM") return new TScan<ScannerNoMask>(t);
	if (t == "NM") return new TScan<NonrelocScannerNoMask>(t);
	return 0;
}
IScan* MakeScanA(const std::string& t, Fsm& f, size_t d) {
	if (t == "S") return new TScan<Scanner>(t, f.Compile<Scanner>(d));
	if (t == "N") return new TScan<NonrelocScanner>(t, f.Compile<NonrelocScanner>(d));
	if (t == "SM") return new TScan<ScannerNoMask>(t, f.Compile<ScannerNoMask>(d));
	if (t == "NM") return new TScan<NonrelocScannerNoMask>(t, f.Compile<NonrelocScannerNoMask>(d));
	return 0;
}
