// psisym: a symbolic executor for LLVM bitcode, used by /verif's checks.
// The program under analysis is the real /repo code compiled to bitcode together
// with a harness; see DESIGN.md for the memory model and the trusted parts.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <cmath>
#include <set>
#include <deque>
#include <functional>
#include <atomic>
#include <fstream>
#include <sstream>

using namespace llvm;
#undef DEBUG

static ExprPool P;
static Solver* S;

// ------------------------------------------------------------------ values
struct Val { u64 c; E e; };
static inline Val cv(u64 c) { return Val{c, nullptr}; }
static inline Val mkv(E e) { if (e->op == O_CONST && e->w <= 64) return cv((u64)e->k); return Val{0, e}; }
static inline E ex(const Val& v, unsigned w) { return v.e ? v.e : P.cst(v.c, w); }
static inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 s = 1ull << (w - 1); v &= mask64(w); return (i64)((v ^ s) - s); }

// ------------------------------------------------------------------ memory
enum Kind : uint8_t { K_GLOBAL, K_STACK, K_MALLOC, K_NEW, K_NEWA, K_OTHER };
struct MemObj {
    u32 rc = 0;
    u64 size = 0;
    Kind kind = K_OTHER;
    bool ro = false;
    const char* name = "";
    std::vector<uint8_t> d;
    std::vector<E> s; // empty when wholly concrete
};
struct ObjRef {
    MemObj* p = nullptr;
    ObjRef() {}
    ObjRef(MemObj* q) : p(q) { if (p) p->rc++; }
    ObjRef(const ObjRef& o) : p(o.p) { if (p) p->rc++; }
    ObjRef(ObjRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    ObjRef& operator=(ObjRef o) noexcept { std::swap(p, o.p); return *this; }
    ~ObjRef() { if (p && --p->rc == 0) delete p; }
};
// persistent radix tree: id -> ObjRef, 3 levels of 256 (16M objects)
template <class T> struct Node { u32 rc = 0; T ch[256]; };
template <class N> struct Ref {
    N* p = nullptr;
    Ref() {}
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    N* own() {
        if (!p) { p = new N(); p->rc = 1; }
        else if (p->rc > 1) { N* n = new N(); n->rc = 1; for (int i = 0; i < 256; i++) n->ch[i] = p->ch[i]; p->rc--; p = n; }
        return p;
    }
};
typedef Node<ObjRef> L3; typedef Node<Ref<L3>> L2; typedef Node<Ref<L2>> L1;
struct ObjMap {
    Ref<L1> root;
    MemObj* get(u32 id) const {
        if (!root.p) return nullptr;
        L2* b = root.p->ch[(id >> 16) & 255].p; if (!b) return nullptr;
        L3* c = b->ch[(id >> 8) & 255].p; if (!c) return nullptr;
        return c->ch[id & 255].p;
    }
    ObjRef& slot(u32 id) { return root.own()->ch[(id >> 16) & 255].own()->ch[(id >> 8) & 255].own()->ch[id & 255]; }
    MemObj* own(u32 id) {
        ObjRef& r = slot(id);
        if (r.p->rc > 1) { MemObj* n = new MemObj(*r.p); n->rc = 0; r = ObjRef(n); }
        return r.p;
    }
};
static const u64 OBJ_BASE = 0x1000;       // offset of byte 0 in an object's 4GB region
static const u32 FN_ID = 0x00FFFFFE;      // pseudo object holding function addresses
static const u32 STACK_ID0 = 0x00800000;  // stack objects
static inline u32 idOf(u64 a) { return (u32)(a >> 32); }
static inline u64 addrOf(u32 id) { return ((u64)id << 32) + OBJ_BASE; }

// ------------------------------------------------------------------ decoded code
enum IOp : uint16_t {
    I_MOV, I_BIN, I_CMP, I_CAST, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH,
    I_UNREACH, I_RESUME, I_LPAD, I_ATOMICRMW, I_CMPXCHG, I_FBIN, I_FCMP, I_FCAST, I_FNEG, I_UNSUP, I_NOP, I_PTRADD, I_EXTELT, I_INSELT
};
struct Func;
struct Inst {
    IOp op; uint8_t w, w2; uint8_t sub, fk;
    int dst, a, b, c;
    u64 imm;
    const void* ptr; // aux
    int fnidx;       // coverage function index (debug scope)
    const Instruction* I;
};
struct Edge { int bb; std::vector<std::pair<int, int>> copies; };
struct Leaf { unsigned off; unsigned w; uint8_t fk; };
struct SwitchAux { std::vector<std::pair<u128, int>> cases; std::vector<Edge> edges; int def; };
struct GepAux { u64 k; std::vector<std::pair<int, std::pair<unsigned, u64>>> idx; }; // slot,(width,scale)
struct CallAux {
    Function* callee = nullptr; int fptr = 0;
    std::vector<int> args; std::vector<uint8_t> argw; std::vector<int> argN; // leaves per arg
    std::vector<uint8_t> argByval; std::vector<u64> byvalSize;
    int nret = 0; uint8_t retw = 0;
    std::vector<uint8_t> retws;
    Edge* normal = nullptr; Edge* unwind = nullptr;
    int builtin = -1; int intr = 0;
};
struct LpadAux { bool cleanup; std::vector<std::pair<int, std::vector<u64>>> clauses; }; // 0 catch,1 filter ; typeinfo addrs
struct Func {
    Function* F = nullptr; std::string name;
    std::vector<Inst> code; std::vector<int> bbStart;
    std::vector<Val> consts; int nslots = 0; std::vector<int> argSlots; std::vector<uint8_t> argW;
    int id = 0; u64 calls = 0;
    std::deque<Edge> edges; std::deque<SwitchAux> sws; std::deque<GepAux> geps; std::deque<CallAux> calls_; std::deque<LpadAux> lpads;
};

struct Frame {
    u32 rc = 0;
    Func* f; int pc; std::vector<Val> r; std::vector<u32> allocas; std::vector<Val> varargs; std::vector<uint8_t> vaw; u32 stackTop;
};
struct FrameRef {
    Frame* p = nullptr;
    FrameRef() {}
    FrameRef(Frame* q) : p(q) { p->rc++; }
    FrameRef(const FrameRef& o) : p(o.p) { if (p) p->rc++; }
    FrameRef(FrameRef&& o) noexcept : p(o.p) { o.p = nullptr; }
    FrameRef& operator=(FrameRef o) noexcept { std::swap(p, o.p); return *this; }
    ~FrameRef() { if (p && --p->rc == 0) delete p; }
    Frame* own() { if (p->rc > 1) { Frame* n = new Frame(*p); n->rc = 1; p->rc--; p = n; } return p; }
};
struct ExcInfo { u64 tinfo; u64 adjusted; int handlers; };
struct State {
    std::vector<FrameRef> st;
    ObjMap mem;
    u32 nextHeap, stackNext;
    std::vector<E> pc;
    std::vector<u64> model;                     // by var index
    std::shared_ptr<std::vector<Dom>> dom;      // by var index
    std::vector<uint8_t> multi;                 // by var: occurs in a multi-var constraint
    std::vector<u32> vars;                      // in creation order
    std::vector<std::string> varNames;
    std::map<u64, ExcInfo> exc;
    std::vector<u64> caught;
    int uncaught = 0;
    u64 pendingExc = 0, pendingSel = 0;
    std::vector<std::pair<std::string, Val>> obs;
    u64 steps = 0; u32 depth = 0;
    u64 heapBytes = 0;
    std::vector<std::string> notes;
};

// ------------------------------------------------------------------ globals / options
static LLVMContext Ctx;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static double optTime = 60; static u64 optSteps = 50000000; static int optJobs = 8; static u64 optMaxPaths = 0; static int optSamples = 64; static int optMaxErr = 24;
static std::string outFile = "out.json"; static bool verbose = false;
static double tStart;

struct ErrRec { std::string kind, msg, loc; std::vector<u64> vals; std::vector<unsigned> ws; std::vector<std::string> names; std::vector<std::string> stack; std::vector<std::string> notes; };
struct SampleRec { std::vector<u64> vals; std::vector<unsigned> ws; std::vector<std::pair<std::string, u64>> obs; std::vector<std::string> names; };
static std::vector<ErrRec> errors; static std::map<std::string, int> errCount;
static std::vector<SampleRec> samples;
static u64 nPaths = 0, nDone = 0, nForks = 0, nInsts = 0, nAssumeKill = 0, nIncomplete = 0, nStepLimit = 0, nAsserts = 0, nAssertQueries = 0, nAssertTrivial = 0, nSymBranches = 0, nMemQ = 0, nErrPaths = 0, nUnexplored = 0;
static std::map<std::string, u64> incompleteWhy, reachMarks, checkCounts;
static std::vector<std::string> covName, covFile; static std::vector<u64> covCount; static std::map<const void*, int> covIdx;
static std::deque<State*> work;

// ------------------------------------------------------------------ module layout
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<Function*> fnByIdx;
static std::unordered_map<const Function*, Func*> funcs;
static u32 nextGlobalId = 1;
static u64 typeidNext = 1; static std::map<u64, u64> typeids;
static std::map<u64, std::string> rttiKind; // vtable address -> kind

static void die(const std::string& m) { fprintf(stderr, "psisym: %s\n", m.c_str()); exit(3); }
struct Unsupported { std::string why; };

static u64 funcAddr(const Function* F) {
    auto it = gaddr.find(F);
    if (it != gaddr.end()) return it->second;
    u64 a = addrOf(FN_ID) + 16 * (u64)fnByIdx.size();
    fnByIdx.push_back(const_cast<Function*>(F));
    gaddr[F] = a;
    return a;
}
static u64 typeSize(Type* T) { return DL->getTypeAllocSize(T); }
static void leavesOf(Type* T, u64 off, std::vector<Leaf>& out) {
    if (auto* ST = dyn_cast<StructType>(T)) {
        const StructLayout* SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) leavesOf(ST->getElementType(i), off + SL->getElementOffset(i), out);
    } else if (auto* AT = dyn_cast<ArrayType>(T)) {
        for (u64 i = 0; i < AT->getNumElements(); i++) leavesOf(AT->getElementType(), off + i * typeSize(AT->getElementType()), out);
    } else if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        u64 es = (DL->getTypeSizeInBits(VT->getElementType()) + 7) / 8;
        for (u64 i = 0; i < VT->getNumElements(); i++) leavesOf(VT->getElementType(), off + i * es, out);
    } else if (T->isVoidTy() || T->isMetadataTy() || T->isTokenTy()) {
    } else {
        unsigned w = T->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(T);
        uint8_t fk = T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : T->isX86_FP80Ty() ? 3 : 0;
        if (w > 128) throw Unsupported{"wide integer"};
        out.push_back(Leaf{(unsigned)off, w, fk});
    }
}
static std::unordered_map<Type*, std::vector<Leaf>> leafCache;
static const std::vector<Leaf>& leaves(Type* T) {
    auto it = leafCache.find(T);
    if (it != leafCache.end()) return it->second;
    std::vector<Leaf> v;
    leavesOf(T, 0, v);
    return leafCache.emplace(T, v).first->second;
}

static u128 apIntTo(const APInt& A) {
    u128 r = A.extractBitsAsZExtValue(std::min(64u, A.getBitWidth()), 0);
    if (A.getBitWidth() > 64) r |= (u128)A.extractBitsAsZExtValue(std::min(64u, A.getBitWidth() - 64), 64) << 64;
    return r;
}
static Val valOf(u128 v, unsigned w) { if (w <= 64) return cv((u64)v & mask64(w)); return Val{0, P.cst(v, w)}; }
static void constLeaves(const Constant* C, std::vector<Val>& out);
static u128 constScalar(const Constant* C) {
    if (auto* CI = dyn_cast<ConstantInt>(C)) return apIntTo(CI->getValue());
    if (auto* CF = dyn_cast<ConstantFP>(C)) return apIntTo(CF->getValueAPF().bitcastToAPInt());
    if (isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return 0;
    if (auto* GA = dyn_cast<GlobalAlias>(C)) return constScalar(GA->getAliasee());
    if (auto* F = dyn_cast<Function>(C)) return funcAddr(F);
    if (auto* G = dyn_cast<GlobalVariable>(C)) { auto it = gaddr.find(G); if (it == gaddr.end()) throw Unsupported{"unknown global " + G->getName().str()}; return it->second; }
    if (auto* BA = dyn_cast<BlockAddress>(C)) { (void)BA; throw Unsupported{"blockaddress"}; }
    if (auto* DE = dyn_cast<DSOLocalEquivalent>(C)) return constScalar(DE->getGlobalValue());
    if (auto* CE = dyn_cast<ConstantExpr>(C)) {
        unsigned w = CE->getType()->isPointerTy() ? 64 : (unsigned)DL->getTypeSizeInBits(CE->getType());
        u128 m = maskOf(w);
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto* G = cast<GEPOperator>(CE);
            APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) throw Unsupported{"const gep"};
            return (constScalar(cast<Constant>(G->getPointerOperand())) + (u128)(i128)off.getSExtValue()) & m;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc:
            return constScalar(CE->getOperand(0)) & m;
        case Instruction::ZExt: return constScalar(CE->getOperand(0));
        case Instruction::SExt: return (u128)sextTo(constScalar(CE->getOperand(0)), CE->getOperand(0)->getType()->getIntegerBitWidth()) & m;
        case Instruction::Add: return (constScalar(CE->getOperand(0)) + constScalar(CE->getOperand(1))) & m;
        case Instruction::Sub: return (constScalar(CE->getOperand(0)) - constScalar(CE->getOperand(1))) & m;
        case Instruction::Mul: return (constScalar(CE->getOperand(0)) * constScalar(CE->getOperand(1))) & m;
        case Instruction::And: return constScalar(CE->getOperand(0)) & constScalar(CE->getOperand(1));
        case Instruction::Or: return constScalar(CE->getOperand(0)) | constScalar(CE->getOperand(1));
        case Instruction::Xor: return constScalar(CE->getOperand(0)) ^ constScalar(CE->getOperand(1));
        case Instruction::Shl: return (constScalar(CE->getOperand(0)) << (unsigned)constScalar(CE->getOperand(1))) & m;
        case Instruction::ICmp: {
            u128 a = constScalar(CE->getOperand(0)), b = constScalar(CE->getOperand(1));
            switch (CE->getPredicate()) { case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_ULE: return a <= b; case CmpInst::ICMP_UGE: return a >= b; default: break; }
            throw Unsupported{"const icmp"};
        }
        case Instruction::Select: return constScalar(CE->getOperand(0)) ? constScalar(CE->getOperand(1)) : constScalar(CE->getOperand(2));
        default: break;
        }
        throw Unsupported{std::string("constant expr ") + CE->getOpcodeName()};
    }
    std::string s; raw_string_ostream o(s); C->print(o);
    throw Unsupported{"constant " + o.str().substr(0, 80)};
}
static void constLeaves(const Constant* C, std::vector<Val>& out) {
    Type* T = C->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy()) {
        if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
            for (auto& l : leaves(T)) out.push_back(valOf(0, l.w));
            return;
        }
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; i++) constLeaves(C->getAggregateElement(i), out);
        return;
    }
    auto& L = leaves(T);
    if (L.empty()) return;
    out.push_back(valOf(constScalar(C), L[0].w));
}
static void initBytes(MemObj* o, const Constant* C, u64 off) {
    Type* T = C->getType();
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) return;
    if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        StringRef r = CD->getRawDataValues();
        memcpy(&o->d[off], r.data(), r.size());
        return;
    }
    if (auto* ST = dyn_cast<StructType>(T)) {
        const StructLayout* SL = DL->getStructLayout(ST);
        for (unsigned i = 0; i < ST->getNumElements(); i++) initBytes(o, C->getAggregateElement(i), off + SL->getElementOffset(i));
        return;
    }
    if (auto* AT = dyn_cast<ArrayType>(T)) {
        for (u64 i = 0; i < AT->getNumElements(); i++) initBytes(o, C->getAggregateElement(i), off + i * typeSize(AT->getElementType()));
        return;
    }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) {
        u64 es = (DL->getTypeSizeInBits(VT->getElementType()) + 7) / 8;
        for (u64 i = 0; i < VT->getNumElements(); i++) initBytes(o, C->getAggregateElement(i), off + i * es);
        return;
    }
    u128 v = constScalar(C);
    u64 n = (DL->getTypeSizeInBits(T) + 7) / 8;
    for (u64 i = 0; i < n; i++) o->d[off + i] = (uint8_t)(v >> (8 * i));
}

// ------------------------------------------------------------------ builtins
enum Builtin {
    B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWA, B_DELETE, B_DELETEA, B_MEMCMP, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_ABORT, B_ASSERTFAIL, B_EXIT,
    B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW, B_CXA_GETPTR, B_TERMINATE, B_CALLUNEXP, B_PUREVIRT, B_DYNCAST, B_UNCAUGHT, B_UNCAUGHTS,
    B_NOP0, B_NOP1, B_SYM, B_SYMINT, B_ASSUME, B_CHECK, B_REACH, B_OBSERVE, B_CONCR, B_ISSYM, B_FAIL, B_STRLEN, B_ENUM, B_UNSUPFN, B_HASH0, B_NOTE, B_ITE, B_GUARDACQ, B_ALIGNEDNEW, B_CURPRIMEXC,
    B_SINK
};
static std::map<std::string, Builtin> builtinTab = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWA}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWA},
    {"_ZnwmSt11align_val_t", B_ALIGNEDNEW}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE},
    {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELETEA}, {"_ZdaPvm", B_DELETEA}, {"_ZdlPvRKSt9nothrow_t", B_DELETE}, {"_ZdaPvRKSt9nothrow_t", B_DELETEA},
    {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERTFAIL}, {"exit", B_EXIT}, {"_exit", B_EXIT},
    {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END},
    {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_get_exception_ptr", B_CXA_GETPTR}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_call_unexpected", B_CALLUNEXP}, {"__cxa_pure_virtual", B_PUREVIRT},
    {"__dynamic_cast", B_DYNCAST}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHTS},
    {"__cxa_atexit", B_NOP0}, {"atexit", B_NOP0}, {"__cxa_thread_atexit", B_NOP0}, {"__gmon_start__", B_NOP0}, {"pthread_mutex_lock", B_NOP0}, {"pthread_mutex_unlock", B_NOP0}, {"pthread_mutex_init", B_NOP0}, {"pthread_mutex_destroy", B_NOP0},
    {"pthread_mutex_trylock", B_NOP0}, {"pthread_cond_init", B_NOP0}, {"pthread_cond_destroy", B_NOP0}, {"pthread_cond_broadcast", B_NOP0}, {"pthread_cond_signal", B_NOP0}, {"pthread_condattr_init", B_NOP0}, {"pthread_condattr_destroy", B_NOP0}, {"pthread_condattr_setclock", B_NOP0},
    {"pthread_mutexattr_init", B_NOP0}, {"pthread_mutexattr_settype", B_NOP0}, {"pthread_mutexattr_destroy", B_NOP0}, {"sched_yield", B_NOP0},
    {"psi_sym", B_SYM}, {"psi_sym_int", B_SYMINT}, {"psi_assume", B_ASSUME}, {"psi_check", B_CHECK}, {"psi_reach", B_REACH}, {"psi_observe", B_OBSERVE}, {"psi_concretize", B_CONCR}, {"psi_is_symbolic", B_ISSYM},
    {"psi_fail", B_FAIL}, {"strlen", B_STRLEN}, {"psi_hash0", B_HASH0}, {"psi_note", B_NOTE}, {"psi_ite", B_ITE}, {"psi_sink", B_SINK},
};
static std::vector<std::string> hashPrefixes; // functions replaced by a constant hash (option)

// ------------------------------------------------------------------ decoder
struct Decoder {
    Func& f; Function* F;
    std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bbIdx;
    std::map<std::pair<u64, unsigned>, int> cpool;
    int curCov = -1;
    Decoder(Func& g) : f(g), F(g.F) {}
    int constIdx(const Val& v) {
        if (!v.e) { auto it = cpool.find({v.c, 0}); if (it != cpool.end()) return it->second; }
        f.consts.push_back(v);
        int id = -(int)f.consts.size();
        if (!v.e) cpool[{v.c, 0}] = id;
        return id;
    }
    // i-th leaf operand of V
    int opnd(const Value* V, int i = 0) {
        if (auto* C = dyn_cast<Constant>(V)) {
            std::vector<Val> v;
            constLeaves(C, v);
            return constIdx(v.at(i));
        }
        auto it = slot.find(V);
        if (it == slot.end()) throw Unsupported{"operand without slot"};
        return it->second + i;
    }
    int nl(Type* T) { return (int)leaves(T).size(); }
    void covOf(const Instruction& I) {
        static std::map<std::string, int> byKey;
        if (auto& dl = I.getDebugLoc()) {
            const DILocalScope* sc = dyn_cast<DILocalScope>(dl->getScope());
            const DISubprogram* sp = sc ? sc->getSubprogram() : nullptr;
            if (sp) {
                auto it = covIdx.find(sp);
                if (it == covIdx.end()) {
                    std::string file = sp->getFilename().str();
                    if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
                    std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str();
                    auto k = byKey.find(file + "#" + nm);
                    int id;
                    if (k != byKey.end()) id = k->second;
                    else { id = covName.size(); covName.push_back(nm); covFile.push_back(file); covCount.push_back(0); byKey[file + "#" + nm] = id; }
                    it = covIdx.emplace(sp, id).first;
                }
                curCov = it->second;
            }
        }
    }
    Inst& emit(IOp op, const Instruction* I) {
        Inst in; memset(&in, 0, sizeof in);
        in.op = op; in.I = I; in.fnidx = curCov; in.dst = -1;
        f.code.push_back(in);
        return f.code.back();
    }
    Edge mkEdge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.bb = bbIdx[to];
        for (auto& ph : to->phis()) {
            const Value* v = ph.getIncomingValueForBlock(from);
            int n = nl(ph.getType());
            if (isa<UndefValue>(v) && n <= 1 && false) continue;
            for (int i = 0; i < n; i++) e.copies.push_back({slot[&ph] + i, opnd(v, i)});
        }
        return e;
    }
    Edge* newEdge(const BasicBlock* a, const BasicBlock* b) { f.edges.push_back(mkEdge(a, b)); return &f.edges.back(); }
    void run() {
        int n = 0;
        auto alloc = [&](const Value* v) { slot[v] = n; n += nl(v->getType()); };
        for (auto& A : F->args()) {
            alloc(&A);
            for (size_t i = 0; i < leaves(A.getType()).size(); i++) { f.argSlots.push_back(slot[&A] + i); f.argW.push_back(leaves(A.getType())[i].w); }
        }
        int bi = 0;
        for (auto& B : *F) { bbIdx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) alloc(&I); }
        f.nslots = n;
        for (auto& B : *F) {
            f.bbStart.push_back(f.code.size());
            for (auto& I : B) {
                if (isa<PHINode>(I)) continue;
                covOf(I);
                size_t at = f.code.size();
                try { decode(I); }
                catch (Unsupported& u) {
                    f.code.resize(at);
                    Inst& in = emit(I_UNSUP, &I); in.ptr = strdup(u.why.c_str());
                }
            }
        }
    }
    static uint8_t fkOf(Type* T) { return T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : T->isX86_FP80Ty() ? 3 : 0; }
    void decode(const Instruction& I) {
        Type* T = I.getType();
        int d = T->isVoidTy() ? -1 : slot[&I];
        if (isa<DbgInfoIntrinsic>(I)) return;
        switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            static const std::map<unsigned, Op> om = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
            auto& L = leaves(T);
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i); Inst& in = emit(I_BIN, &I); in.sub = om.at(I.getOpcode()); in.w = L[i].w; in.dst = d + i; in.a = a; in.b = b; }
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            auto& L = leaves(T);
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i); Inst& in = emit(I_FBIN, &I); in.sub = I.getOpcode() - Instruction::FAdd; in.imm = I.getOpcode(); in.fk = L[i].fk; in.w = L[i].w; in.dst = d + i; in.a = a; in.b = b; }
            break;
        }
        case Instruction::FNeg: {
            auto& L = leaves(T);
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_FNEG, &I); in.fk = L[i].fk; in.w = L[i].w; in.dst = d + i; in.a = a; }
            break;
        }
        case Instruction::ICmp: case Instruction::FCmp: {
            auto& L = leaves(I.getOperand(0)->getType());
            for (size_t i = 0; i < L.size(); i++) {
                int a = opnd(I.getOperand(0), i), b = opnd(I.getOperand(1), i);
                Inst& in = emit(I.getOpcode() == Instruction::ICmp ? I_CMP : I_FCMP, &I); in.sub = cast<CmpInst>(I).getPredicate(); in.w = L[i].w; in.fk = L[i].fk; in.dst = d + i; in.a = a; in.b = b;
            }
            break;
        }
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: {
            auto& L = leaves(T); auto& L0 = leaves(I.getOperand(0)->getType());
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_CAST, &I); in.sub = I.getOpcode() == Instruction::SExt; in.w = L[i].w; in.w2 = L0[i].w; in.dst = d + i; in.a = a; }
            break;
        }
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: {
            auto& L = leaves(T); auto& L0 = leaves(I.getOperand(0)->getType());
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_FCAST, &I); in.imm = I.getOpcode(); in.w = L[i].w; in.w2 = L0[i].w; in.fk = L[i].fk; in.sub = L0[i].fk; in.dst = d + i; in.a = a; }
            break;
        }
        case Instruction::BitCast: {
            auto& L = leaves(T); auto& L0 = leaves(I.getOperand(0)->getType());
            if (L.size() != L0.size()) {
                // vector <-> scalar bitcast: via concat/extract of little-endian lanes
                if (L.size() == 1) {
                    // concat all lanes
                    int acc = opnd(I.getOperand(0), 0); unsigned aw = L0[0].w;
                    int tmp = -1;
                    for (size_t i = 1; i < L0.size(); i++) {
                        int hi = opnd(I.getOperand(0), i);
                        int t = f.nslots++;
                        Inst& in = emit(I_INSELT, &I); in.dst = t; in.a = hi; in.b = acc; in.w = L0[i].w; in.w2 = aw; // concat
                        acc = t; aw += L0[i].w; tmp = t;
                    }
                    (void)tmp;
                    Inst& in = emit(I_MOV, &I); in.dst = d; in.a = acc; in.w = L[0].w;
                } else if (L0.size() == 1) {
                    int a = opnd(I.getOperand(0), 0); unsigned lo = 0;
                    for (size_t i = 0; i < L.size(); i++) { Inst& in = emit(I_EXTELT, &I); in.dst = d + i; in.a = a; in.w = L[i].w; in.w2 = L0[0].w; in.imm = lo; lo += L[i].w; }
                } else throw Unsupported{"vector bitcast"};
                break;
            }
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = L[i].w; }
            break;
        }
        case Instruction::Freeze: case Instruction::AddrSpaceCast: {
            for (int i = 0; i < nl(T); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = leaves(T)[i].w; }
            break;
        }
        case Instruction::Select: {
            auto& L = leaves(T); bool vc = I.getOperand(0)->getType()->isVectorTy();
            for (size_t i = 0; i < L.size(); i++) { int c = opnd(I.getOperand(0), vc ? i : 0), a = opnd(I.getOperand(1), i), b = opnd(I.getOperand(2), i); Inst& in = emit(I_SELECT, &I); in.w = L[i].w; in.dst = d + i; in.a = a; in.b = b; in.c = c; }
            break;
        }
        case Instruction::ExtractValue: {
            auto& EV = cast<ExtractValueInst>(I);
            int off = 0; Type* A = EV.getAggregateOperand()->getType();
            for (unsigned ix : EV.indices()) { off += idxOff(A, ix); A = elem(A, ix); }
            for (int i = 0; i < nl(T); i++) { int a = opnd(EV.getAggregateOperand(), off + i); Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = leaves(T)[i].w; }
            break;
        }
        case Instruction::InsertValue: {
            auto& IV = cast<InsertValueInst>(I);
            int off = 0; Type* A = T;
            for (unsigned ix : IV.indices()) { off += idxOff(A, ix); A = elem(A, ix); }
            int m = nl(A);
            for (int i = 0; i < nl(T); i++) {
                int a = (i >= off && i < off + m) ? opnd(IV.getInsertedValueOperand(), i - off) : opnd(IV.getAggregateOperand(), i);
                Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = leaves(T)[i].w;
            }
            break;
        }
        case Instruction::ExtractElement: {
            auto* C = dyn_cast<ConstantInt>(I.getOperand(1));
            if (!C) throw Unsupported{"extractelement var"};
            int a = opnd(I.getOperand(0), C->getZExtValue()); Inst& in = emit(I_MOV, &I); in.dst = d; in.a = a; in.w = leaves(T)[0].w;
            break;
        }
        case Instruction::InsertElement: {
            auto* C = dyn_cast<ConstantInt>(I.getOperand(2));
            if (!C) throw Unsupported{"insertelement var"};
            for (int i = 0; i < nl(T); i++) { int a = (u64)i == C->getZExtValue() ? opnd(I.getOperand(1)) : opnd(I.getOperand(0), i); Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = leaves(T)[i].w; }
            break;
        }
        case Instruction::ShuffleVector: {
            auto& SV = cast<ShuffleVectorInst>(I);
            int n0 = nl(I.getOperand(0)->getType());
            for (int i = 0; i < nl(T); i++) {
                int m = SV.getMaskValue(i);
                int a = m < 0 ? constIdx(cv(0)) : m < n0 ? opnd(I.getOperand(0), m) : opnd(I.getOperand(1), m - n0);
                Inst& in = emit(I_MOV, &I); in.dst = d + i; in.a = a; in.w = leaves(T)[i].w;
            }
            break;
        }
        case Instruction::Load: {
            auto& L = leaves(T); int a = opnd(I.getOperand(0));
            // load all leaves; the pointer slot might be overwritten only by dst, so safe (dst != ptr in SSA)
            for (size_t i = 0; i < L.size(); i++) { Inst& in = emit(I_LOAD, &I); in.w = L[i].w; in.dst = d + i; in.a = a; in.imm = L[i].off; }
            break;
        }
        case Instruction::Store: {
            Type* VT = I.getOperand(0)->getType(); auto& L = leaves(VT);
            int p = opnd(I.getOperand(1));
            for (size_t i = 0; i < L.size(); i++) { int a = opnd(I.getOperand(0), i); Inst& in = emit(I_STORE, &I); in.w = L[i].w; in.a = a; in.b = p; in.imm = L[i].off; }
            break;
        }
        case Instruction::GetElementPtr: {
            if (T->isVectorTy()) throw Unsupported{"vector gep"};
            auto& G = cast<GetElementPtrInst>(I);
            GepAux ga; ga.k = 0;
            for (gep_type_iterator it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
                Value* ix = it.getOperand();
                if (StructType* ST = it.getStructTypeOrNull()) { ga.k += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                u64 sz = typeSize(it.getIndexedType());
                if (auto* C = dyn_cast<ConstantInt>(ix)) ga.k += (u64)C->getSExtValue() * sz;
                else ga.idx.push_back({opnd(ix), {(unsigned)ix->getType()->getIntegerBitWidth(), sz}});
            }
            int a = opnd(G.getPointerOperand());
            if (ga.idx.empty()) { Inst& in = emit(I_PTRADD, &I); in.dst = d; in.a = a; in.imm = ga.k; in.w = 64; }
            else { f.geps.push_back(ga); Inst& in = emit(I_GEP, &I); in.dst = d; in.a = a; in.ptr = &f.geps.back(); in.w = 64; }
            break;
        }
        case Instruction::Alloca: {
            auto& A = cast<AllocaInst>(I);
            int c = opnd(A.getArraySize());
            Inst& in = emit(I_ALLOCA, &I); in.dst = d; in.a = c; in.imm = typeSize(A.getAllocatedType());
            break;
        }
        case Instruction::Ret: {
            const Value* v = cast<ReturnInst>(I).getReturnValue();
            int n = v ? nl(v->getType()) : 0;
            std::vector<int>* ops = new std::vector<int>();
            for (int i = 0; i < n; i++) ops->push_back(opnd(v, i));
            Inst& in = emit(I_RET, &I); in.ptr = ops;
            break;
        }
        case Instruction::Br: {
            auto& B = cast<BranchInst>(I);
            if (B.isUnconditional()) { Edge* e = newEdge(I.getParent(), B.getSuccessor(0)); Inst& in = emit(I_BR, &I); in.ptr = e; }
            else {
                int c = opnd(B.getCondition());
                Edge* e1 = newEdge(I.getParent(), B.getSuccessor(0)); Edge* e2 = newEdge(I.getParent(), B.getSuccessor(1));
                Inst& in = emit(I_CONDBR, &I); in.a = c; in.ptr = e1; in.imm = (u64)e2;
            }
            break;
        }
        case Instruction::Switch: {
            auto& W = cast<SwitchInst>(I);
            f.sws.push_back(SwitchAux()); SwitchAux& sa = f.sws.back();
            std::map<const BasicBlock*, int> ei;
            auto edge = [&](const BasicBlock* b) { auto it = ei.find(b); if (it != ei.end()) return it->second; sa.edges.push_back(mkEdge(I.getParent(), b)); return ei[b] = (int)sa.edges.size() - 1; };
            sa.def = edge(W.getDefaultDest());
            for (auto& c : W.cases()) sa.cases.push_back({apIntTo(c.getCaseValue()->getValue()), edge(c.getCaseSuccessor())});
            int a = opnd(W.getCondition());
            Inst& in = emit(I_SWITCH, &I); in.a = a; in.w = W.getCondition()->getType()->getIntegerBitWidth(); in.ptr = &sa;
            break;
        }
        case Instruction::Unreachable: emit(I_UNREACH, &I); break;
        case Instruction::Resume: { int a = opnd(I.getOperand(0), 0); Inst& in = emit(I_RESUME, &I); in.a = a; break; }
        case Instruction::LandingPad: {
            auto& LP = cast<LandingPadInst>(I);
            LpadAux la; la.cleanup = LP.isCleanup();
            for (unsigned i = 0; i < LP.getNumClauses(); i++) {
                Constant* C = LP.getClause(i);
                if (LP.isCatch(i)) la.clauses.push_back({0, {(u64)constScalar(C)}});
                else {
                    std::vector<u64> v;
                    if (auto* CA = dyn_cast<ConstantArray>(C)) for (auto& o : CA->operands()) v.push_back((u64)constScalar(cast<Constant>(o)));
                    la.clauses.push_back({1, v});
                }
            }
            f.lpads.push_back(la);
            Inst& in = emit(I_LPAD, &I); in.dst = d; in.ptr = &f.lpads.back();
            break;
        }
        case Instruction::AtomicRMW: {
            auto& R = cast<AtomicRMWInst>(I);
            int p = opnd(R.getPointerOperand()), v = opnd(R.getValOperand());
            Inst& in = emit(I_ATOMICRMW, &I); in.sub = R.getOperation(); in.dst = d; in.a = v; in.b = p; in.w = leaves(T)[0].w;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            auto& R = cast<AtomicCmpXchgInst>(I);
            int p = opnd(R.getPointerOperand()), c = opnd(R.getCompareOperand()), n = opnd(R.getNewValOperand());
            Inst& in = emit(I_CMPXCHG, &I); in.dst = d; in.a = c; in.b = p; in.c = n; in.w = leaves(R.getCompareOperand()->getType())[0].w;
            break;
        }
        case Instruction::Fence: break;
        case Instruction::VAArg: throw Unsupported{"va_arg"};
        case Instruction::Call: case Instruction::Invoke: decodeCall(cast<CallBase>(I), d); break;
        default: throw Unsupported{std::string("opcode ") + I.getOpcodeName()};
        }
    }
    int idxOff(Type* A, unsigned ix) {
        int o = 0;
        if (auto* ST = dyn_cast<StructType>(A)) { for (unsigned i = 0; i < ix; i++) o += nl(ST->getElementType(i)); return o; }
        return ix * nl(cast<ArrayType>(A)->getElementType());
    }
    Type* elem(Type* A, unsigned ix) { if (auto* ST = dyn_cast<StructType>(A)) return ST->getElementType(ix); return cast<ArrayType>(A)->getElementType(); }
    void decodeCall(const CallBase& CB, int d) {
        const Value* cal = CB.getCalledOperand()->stripPointerCasts();
        if (auto* IA = dyn_cast<InlineAsm>(cal)) {
            if (IA->getAsmString().empty()) { // compiler barrier
                if (CB.getType()->isVoidTy()) { finishInvoke(CB); return; }
            }
            throw Unsupported{"inline asm: " + IA->getAsmString()};
        }
        CallAux ca;
        if (auto* GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliaseeObject();
        if (auto* CF = dyn_cast<Function>(cal)) ca.callee = const_cast<Function*>(CF);
        else ca.fptr = opnd(cal);
        if (ca.callee && ca.callee->isIntrinsic()) {
            ca.intr = ca.callee->getIntrinsicID();
            switch (ca.intr) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::sideeffect: case Intrinsic::pseudoprobe: case Intrinsic::vaend:
                finishInvoke(CB); return;
            default: break;
            }
        }
        for (unsigned i = 0; i < CB.arg_size(); i++) {
            const Value* A = CB.getArgOperand(i);
            if (A->getType()->isMetadataTy()) { ca.argN.push_back(0); continue; }
            auto& L = leaves(A->getType());
            ca.argN.push_back(L.size());
            for (size_t j = 0; j < L.size(); j++) {
                ca.args.push_back(opnd(A, j)); ca.argw.push_back(L[j].w);
                bool bv = CB.isByValArgument(i);
                ca.argByval.push_back(bv);
                ca.byvalSize.push_back(bv ? typeSize(CB.getParamByValType(i)) : 0);
            }
        }
        for (auto& l : leaves(CB.getType())) ca.retws.push_back(l.w);
        ca.nret = ca.retws.size();
        if (auto* II = dyn_cast<InvokeInst>(&CB)) { ca.normal = newEdge(CB.getParent(), II->getNormalDest()); ca.unwind = newEdge(CB.getParent(), II->getUnwindDest()); }
        if (ca.callee && !ca.intr) {
            std::string nm = ca.callee->getName().str();
            auto it = builtinTab.find(nm);
            if (it != builtinTab.end()) ca.builtin = it->second;
            for (auto& h : hashPrefixes) if (nm.compare(0, h.size(), h) == 0) ca.builtin = B_HASH0;
        }
        f.calls_.push_back(ca);
        Inst& in = emit(I_CALL, &CB); in.dst = d; in.ptr = &f.calls_.back();
    }
    void finishInvoke(const CallBase& CB) {
        if (auto* II = dyn_cast<InvokeInst>(&CB)) { Edge* e = newEdge(CB.getParent(), II->getNormalDest()); Inst& in = emit(I_BR, &CB); in.ptr = e; }
    }
};
static Func* getFunc(Function* F) {
    auto it = funcs.find(F);
    if (it != funcs.end()) return it->second;
    Func* f = new Func(); f->F = F; f->name = F->getName().str(); f->id = funcs.size();
    funcs[F] = f;
    if (!F->isDeclaration()) { Decoder d(*f); d.run(); }
    return f;
}

#include "interp.inc"
