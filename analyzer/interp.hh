// Forward dataflow over LLVM IR. The abstract state maps every bit of every live SSA value and
// every bit of memory to a Boolean function of the operand bits; states meeting at a control-flow
// join are merged under their reachability guards (no path is ever enumerated on its own).
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Intrinsics.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#include "bdd.hh"

struct Undecided { std::string why; };

struct Val {
    uint32_t w = 0;
    bool conc = false;
    uint64_t c = 0;
    std::shared_ptr<const std::vector<Lit>> b;
    std::shared_ptr<const std::vector<Val>> el;
    int loc = -1;
    Lit bit(uint32_t i) const { return conc ? (Lit)((c >> i) & 1) : (*b)[i]; }
};

constexpr Lit UNINIT = 0xffffffffu;
struct Obj {
    uint64_t size = 0;
    bool global = false, constant = false, heap = false, freed = false, guarded = false;
    std::string name;
    std::vector<Lit> bits;  // size * 8
    std::vector<int> loc;   // size
};
using Mem = std::map<uint32_t, std::shared_ptr<Obj>>;

enum class VC : uint8_t { Input, Undef, Unknown, UF };
struct VarInfo { VC cls; std::string name; int uf = -1; uint32_t ufbit = 0; };
struct UfDef { int op; std::vector<Lit> a, b; };
enum { UF_MUL, UF_UDIV, UF_UREM, UF_SDIV, UF_SREM };

struct Event { std::string kind; int loc; Lit cond; };

struct FnInfo {
    std::unordered_map<const llvm::Value *, int> num;
    int n = 0;
    std::unordered_map<const llvm::BasicBlock *, int> pos;
    std::vector<std::vector<int>> merge;  // by pos: value numbers to merge
    std::vector<const llvm::BasicBlock *> order;
};

class Interp {
public:
    Interp(llvm::Module &m);
    Bdd bdd;
    // ---- domain
    Lit And(Lit a, Lit b) { return bdd.And(a, b); }
    Lit Or(Lit a, Lit b) { return bdd.Or(a, b); }
    Lit Xor(Lit a, Lit b) { return bdd.Xor(a, b); }
    Lit Ite(Lit f, Lit a, Lit b) { return bdd.Ite(f, a, b); }
    using Bits = std::vector<Lit>;
    static Val mkc(uint32_t w, uint64_t c);
    static Val mk(Bits v);
    static Bits bits(const Val &v);
    Bits addv(const Bits &a, const Bits &b, Lit cin, Lit *cout = nullptr);
    Bits negv(const Bits &a);
    Bits notv(Bits a);
    Bits itev(Lit c, const Bits &a, const Bits &b);
    Bits shlc(const Bits &a, uint64_t n);
    Bits mulv(const Bits &a, const Bits &b);
    Bits divv(int op, const Bits &a, const Bits &b);
    Lit eqv(const Bits &a, const Bits &b);
    Lit ultv(const Bits &a, const Bits &b);
    Lit sltv(const Bits &a, const Bits &b);
    Lit orv(const Bits &a);
    Val merge(Lit c, const Val &a, const Val &b);
    Lit fresh(VC cls, const std::string &name);
    VarInfo &info(uint32_t var);
    uint32_t inputVar(uint32_t level, const std::string &name);
    // values of v possible under guard (at most max), with the condition of each
    std::vector<std::pair<Lit, uint64_t>> enumerate(const Val &v, Lit guard, size_t max);

    // ---- running
    void reset();
    Val run(llvm::Function *f, std::vector<Val> args, Mem &mem, Lit &guard);
    uint64_t newObj(Mem &mem, uint64_t size, const std::string &name, bool uninit = true);
    static uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + 0x1000; }
    Val load(Mem &mem, const Val &p, uint32_t w, Lit guard, bool ptrTy = false);
    void store(Mem &mem, const Val &p, const Val &v, Lit guard, Lit cond = 1);
    void event(const std::string &kind, Lit cond);
    std::vector<Event> events;
    std::map<std::pair<std::string, int>, size_t> evIdx;
    std::vector<std::string> locs;
    uint64_t blockLimit = 4000000, blocks = 0, instrs = 0;
    std::set<std::string> fnsSeen;
    std::vector<UfDef> ufs;
    std::map<uint32_t, VarInfo> inputs;
    std::vector<VarInfo> extra;
    static constexpr uint32_t EXTRA = 1u << 20;
    bool evalLit(Lit f, const std::function<bool(uint32_t)> &in, std::unordered_map<uint32_t, bool> &memo);
    bool allowGlobalStore = false;
    std::map<uint64_t, struct Stream *> streams;
    llvm::Module &M;

private:
    const llvm::DataLayout &DL;
    std::unordered_map<const llvm::Function *, std::unique_ptr<FnInfo>> fns_;
    std::unordered_map<const llvm::Value *, uint32_t> gid_;
    std::map<uint32_t, const llvm::Function *> faddr_;
    Mem globals_;
    uint32_t nextId_ = 16, depth_ = 0;
    int curLoc_ = -1;
    std::unordered_map<const void *, int> locOf_;
    std::map<std::string, int> locIds_;
    std::map<std::vector<uint32_t>, Lit> ufMemo_;
    std::unordered_map<const llvm::Constant *, Val> constMemo_;

    struct Pending { Lit guard; std::vector<Val> env; Mem mem; };
    FnInfo &infoOf(const llvm::Function *f);
    int locFor(const llvm::Instruction *I, int callerLoc);
    Val constant(const llvm::Constant *c);
    Val globalAddr(const llvm::GlobalValue *g);
    void initGlobal(const llvm::GlobalVariable *g, uint32_t id);
    void writeConst(Obj &o, uint64_t off, const llvm::Constant *c);
    Val get(const llvm::Value *v, FnInfo &fi, std::vector<Val> &env);
    void mergeMem(Lit c, Mem &a, const Mem &b);
    Val binop(unsigned opc, const Val &a, const Val &b, const llvm::Instruction *I, Lit guard);
    Val cmp(unsigned pred, const Val &a, const Val &b);
    Val castop(const llvm::CastInst *I, const Val &v);
    Val call(const llvm::CallBase *I, FnInfo &fi, std::vector<Val> &env, Mem &mem, Lit &guard, int loc);
    bool intrinsic(const llvm::CallBase *I, const llvm::Function *f, std::vector<Val> &a, Mem &mem, Lit &guard, Val &r);
    bool model(const std::string &name, const llvm::CallBase *I, std::vector<Val> &a, Mem &mem, Lit &guard, Val &r);
    void copyMem(Mem &mem, const Val &dst, const Val &src, const Val &n, Lit guard, bool raw);
    void setMem(Mem &mem, const Val &dst, const Val &byte, const Val &n, Lit guard);
    Obj *objAt(Mem &mem, uint64_t addr, uint64_t bytes, uint64_t &off, bool write);
    uint32_t width(llvm::Type *t);
    Val undefOf(llvm::Type *t, VC cls, const char *nm);
    bool streamModel(const std::string &name, std::vector<Val> &a, Mem &mem, Lit &guard, Val &r);
    Val loadType(Mem &mem, const Val &p, llvm::Type *t, Lit guard);
    void storeType(Mem &mem, const Val &p, const Val &v, llvm::Type *t, Lit guard);
    Val ufBits(int op, const Bits &a, const Bits &b);
    bool smallSupport(const Bits &a, const Bits &b, std::vector<uint32_t> &vars, size_t max);
    Bits tabulate(const Bits &a, const Bits &b, std::vector<uint32_t> vars, uint32_t w, const std::function<void(const std::vector<char> &, const std::vector<char> &, std::vector<char> &)> &f);
    friend struct StreamCtx;
};
std::string demangle(const std::string &s);
void bigMul(const std::vector<char> &a, const std::vector<char> &b, std::vector<char> &r);
void bigDivRem(int op, const std::vector<char> &a, const std::vector<char> &b, std::vector<char> &r);
