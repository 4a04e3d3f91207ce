// Conformance driver: common declarations.
#pragma once
#include <pire.h>
#include <extra.h>
#include <stub/memstreams.h>
#include <stub/saveload.h>
#include <memory>
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <functional>
#include <cstring>

struct Unsupported : std::runtime_error { Unsupported(const std::string& s): std::runtime_error(s) {} };

typedef std::vector<unsigned char> Bytes;

// A text placed at a chosen position in a guarded page area.
struct Placed { const char* b; const char* e; };

struct RunItem {
	char kind;      // 'B','E' marks; 's' bytewise; 'r' run at alignment; 'g' run with the end against a guard page; 'p' run pairwise
	int align;
	Bytes text;
};

struct Mapped { void* base; size_t len; const void* data; size_t size; };

// What a state looks like from outside.
struct Obs {
	std::string key;            // JSON
	int fin, dead;
	std::vector<size_t> acc;
	std::vector<size_t> res;    // counters, if any
	bool hasRes;
	Obs(): fin(0), dead(0), hasRes(false) {}
};

struct IState { virtual ~IState() {} };

struct IScan {
	virtual ~IScan() {}
	virtual std::string Type() const = 0;
	virtual IScan* Clone() const = 0;            // copy constructor
	virtual void Assign(IScan&) = 0;             // copy assignment
	virtual void SwapWith(IScan&) = 0;
	virtual void StdSwapWith(IScan&) = 0;
	virtual IScan* MoveClone() = 0;              // move constructor
	virtual void MoveAssign(IScan&) = 0;
	virtual void Save(std::ostream&) const = 0;
	virtual void Load(std::istream&) = 0;
	virtual const void* Mmap(const void* p, size_t n) = 0;
	virtual bool Empty() const = 0;
	virtual size_t Size() const = 0;
	virtual size_t RegexpsCount() const = 0;
	virtual IScan* Glue(const IScan&, size_t max) const = 0;
	virtual IScan* Convert(const std::string& to) const = 0;
	virtual IState* NewState() const = 0;
	virtual IState* CopyState(const IState&) const = 0;
	virtual void Initialize(IState&) const = 0;
	virtual void Step(IState&, unsigned ch) const = 0;
	virtual void Run(IState&, const char* b, const char* e) const = 0;
	virtual Obs Observe(const IState&) const = 0;
	virtual std::string Key(const IState&) const = 0;
	virtual void Find(const std::string& what, const char* b, const char* e, bool m1, bool m2, const char*& ret) const = 0;
	virtual bool Matches(const std::string& what, const char* b, const char* e) const = 0;
	virtual bool CanDump() const = 0;
	virtual const void* Raw() const = 0;
};

typedef std::unique_ptr<IScan> ScanPtr;

IScan* MakeEmpty(const std::string& type);
IScan* MakeScan(const std::string& type, Pire::Fsm& fsm, size_t distance);
IScan* MakeCount(const std::string& type, const Pire::Fsm& re, const Pire::Fsm& sep, int* simple);
IScan* MakeHalf(const std::string& type, const Pire::Fsm& re, const std::string& mode);

IScan* MakeEmptyA(const std::string&); IScan* MakeScanA(const std::string&, Pire::Fsm&, size_t);
IScan* MakeEmptyB(const std::string&); IScan* MakeScanB(const std::string&, Pire::Fsm&, size_t);
IScan* MakeEmptyC(const std::string&); IScan* MakeScanC(const std::string&, Pire::Fsm&, size_t);
IScan* MakeEmptyD(const std::string&); IScan* MakeScanD(const std::string&, Pire::Fsm&, size_t);

const char* PlaceText(const Bytes& t, int align, bool guard, const char*& end);
extern bool g_poison;
