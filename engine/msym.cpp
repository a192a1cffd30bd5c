// msym: symbolic execution of LLVM bitcode with an SMT solver (z3).
//   msym file.bc entry [--workers N] [--time S] [--steps N] [--max-errors N] [-o out.json]
// Every feasible path of `entry` is followed; inputs are sym_u8/16/32/64(); a
// branch whose condition is symbolic is decided by the solver for both
// outcomes.  Reported: failed msym_check()s, memory errors (bounds,
// use-after-free, invalid free, null), use of uninitialised values, aborts,
// paths beyond the step limit; each with a satisfying assignment.  Anything the
// engine cannot follow is listed as "incomplete" -- never silently dropped.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Transforms/Utils/LowerAtomic.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <memory>
#include <map>
#include <functional>
#include <set>
#include <deque>
#include <algorithm>
#include <chrono>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <cstdio>
#include <cstdlib>
using namespace llvm;

static std::unique_ptr<Module> M;
static const DataLayout *DL;
static const u64 BASE = 0x100000, WIN = 1ull << 24, MAXOBJ = 14u << 20;
static Expr *const UNI = (Expr *)1;
static double t_start, time_limit = 1e9;
static u64 step_limit = 30000000, enum_limit = 1200;
static unsigned max_errors = 24;
static bool opt_uninit = true;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
enum Kind : u8 { GLOBAL, STACK, HEAP, FUNC };
struct Obj {
    u32 size; Kind kind; bool alive = true, ro = false, lazy = false;   // lazy: constant bytes not yet materialised
    const char *what = "";
    std::vector<u8> c; std::vector<Expr *> s;
};
typedef std::shared_ptr<Obj> ObjP;
enum { CH = 64 };
struct Chunk { ObjP o[CH]; };
struct Mem {
    std::vector<std::shared_ptr<Chunk>> ch; u64 n = 1;
    Obj *get(u64 id) const { if (id == 0 || id >= n) return nullptr; return ch[id / CH]->o[id % CH].get(); }
    Obj *wr(u64 id) {
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        auto &o = c->o[id % CH];
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return o.get();
    }
    u64 add(ObjP o) {
        u64 id = n++;
        while (ch.size() <= id / CH) ch.push_back(std::make_shared<Chunk>());
        auto &c = ch[id / CH];
        if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
        c->o[id % CH] = o;
        return id;
    }
};
static u64 addrOf(u64 id) { return id * WIN + BASE; }

// ---------------------------------------------------------------- code
struct Opnd { bool k = true; Val v; u32 slot = 0; bool undef = false; const std::vector<Val> *agg = nullptr; Opnd leaf(u32 i) const { Opnd o = *this; if (!k) o.slot += i; else if (agg) o.v = (*agg)[i]; return o; } };
enum IOp : u8 { I_BIN, I_ICMP, I_LOAD, I_STORE, I_GEP, I_CAST, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_ALLOCA,
                I_UNREACH, I_EXTRACTV, I_INSERTV, I_FREEZE, I_FBIN, I_FCMP, I_FCAST, I_MOVE, I_UNSUP };
struct Func;
struct Inst {
    IOp op; u8 sub = 0; u8 w = 0, w2 = 0; bool isptr = false, neg = false; u32 dst = 0, n = 0;
    std::vector<Opnd> ops; std::vector<u64> aux; u64 off = 0;
    std::vector<u8> ws;                        // leaf widths
    const Instruction *I = nullptr; Func *callee = nullptr; int builtin = -1;
};
struct Block { std::vector<Inst> in; std::vector<const PHINode *> phis; std::map<u32, std::vector<std::pair<u32, Opnd>>> phi; };
struct Func {
    const Function *F; u64 id = 0; bool compiled = false; u32 nslots = 0; std::vector<Block> bb; std::vector<u32> argslots;
    DenseMap<const Value *, u32> slot; DenseMap<const BasicBlock *, u32> bbi; int builtin = -1; bool body = false; bool executed = false;
};
static DenseMap<const Function *, Func *> funcs;
static std::unordered_map<u64, Func *> funcById;
static DenseMap<const GlobalValue *, u64> gaddr;

struct Frame {
    Func *f; u32 bb = 0, pc = 0, prev = 0; std::vector<Val> r; std::vector<u64> allocas; u32 ret = 0; std::vector<std::pair<Val, u8>> va; std::vector<u64> valloc;
};
struct State {
    std::vector<std::shared_ptr<Frame>> fr; Mem mem; std::vector<Expr *> pc; Assign m; std::vector<u8> inw; u32 nun = 0; u64 steps = 0; bool done = false;
    u64 enums = 0;
    Frame &top() { auto &f = fr.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
};
typedef std::unique_ptr<State> SP;
static std::deque<SP> work;
struct Stats { u64 paths = 0, insts = 0, forks = 0, ended = 0; } st;
struct Err { std::string kind, msg, loc, stack; std::vector<u64> in; std::vector<u8> w; };
static std::vector<Err> errL; static std::map<std::string, int> errKeys;
static std::map<std::string, u64> incomplete; static std::map<std::string, u64> wits; static std::map<std::string, u64> wdecl;
static std::set<std::string> fnExec;

// ---------------------------------------------------------------- builtins
enum BI { B_NONE = -1, B_SYM, B_ASSUME, B_CHECK, B_WITNESS, B_END, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRCMP, B_STRNCMP, B_ABORT,
          B_NOP, B_VASTART, B_VACOPY, B_MINMAX, B_ABS, B_BITCNT, B_BSWAP, B_OVF, B_SAT, B_EXPECT, B_OBJSIZE, B_FSH, B_ISCONST, B_FATALMSG, B_CONC, B_ISSYM, B_PRINT, B_SIZE, B_VALID, B_INCOMPLETE, B_UNMODELLED };
static int builtinOf(const Function *F)
{
    StringRef n = F->getName();
    if (F->isIntrinsic()) {
        switch (F->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY;
        case Intrinsic::memset: return B_MEMSET;
        case Intrinsic::vastart: return B_VASTART; case Intrinsic::vacopy: return B_VACOPY;
        case Intrinsic::vaend: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: return B_NOP;
        case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: return B_MINMAX;
        case Intrinsic::abs: return B_ABS;
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: return B_BITCNT;
        case Intrinsic::bswap: return B_BSWAP;
        case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: return B_OVF;
        case Intrinsic::usub_sat: case Intrinsic::uadd_sat: return B_SAT;
        case Intrinsic::expect: return B_EXPECT; case Intrinsic::objectsize: return B_OBJSIZE;
        case Intrinsic::fshl: case Intrinsic::fshr: return B_FSH;
        case Intrinsic::is_constant: return B_ISCONST;
        case Intrinsic::trap: return B_ABORT;
        default: return B_UNMODELLED;
        }
    }
    static const std::map<std::string, int> t = {
        {"msym_var", B_SYM}, {"msym_assume", B_ASSUME}, {"msym_check", B_CHECK}, {"msym_witness", B_WITNESS}, {"msym_end", B_END},
        {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
        {"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"strcmp", B_STRCMP}, {"strncmp", B_STRNCMP}, {"abort", B_ABORT}, {"__assert_fail", B_FATALMSG}, {"msym_fatal", B_FATALMSG},
        {"msym_concretize", B_CONC}, {"msym_is_symbolic", B_ISSYM}, {"msym_print", B_PRINT}, {"msym_objsize", B_SIZE}, {"msym_readable", B_VALID}, {"msym_incomplete", B_INCOMPLETE} };
    auto i = t.find(n.str());
    return i == t.end() ? (int)B_UNMODELLED : i->second;
}

// ---------------------------------------------------------------- compile
static Func *getFunc(const Function *F);
static u64 constAddr(const Constant *C);
static bool constVal(const Constant *C, Val &v, unsigned w);
static unsigned widthOf(Type *T)
{
    if (T->isPointerTy()) return 64;
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isDoubleTy()) return 64;
    if (T->isFloatTy()) return 32;
    return 0;
}
static bool leaves(Type *T, std::vector<u8> &ws)
{
    if (T->isVoidTy()) return true;
    if (auto *S = dyn_cast<StructType>(T)) { for (auto *E : S->elements()) if (!leaves(E, ws)) return false; return true; }
    if (auto *A = dyn_cast<ArrayType>(T)) { for (u64 i = 0; i < A->getNumElements(); i++) if (!leaves(A->getElementType(), ws)) return false; return true; }
    unsigned w = widthOf(T); if (!w || w > 64) return false;
    ws.push_back(w); return true;
}
static u32 leafIndex(Type *T, ArrayRef<unsigned> idx)
{
    u32 k = 0;
    for (unsigned i : idx) {
        std::vector<u8> t;
        if (auto *S = dyn_cast<StructType>(T)) { for (unsigned j = 0; j < i; j++) leaves(S->getElementType(j), t); T = S->getElementType(i); }
        else { auto *A = cast<ArrayType>(T); T = A->getElementType(); std::vector<u8> u; leaves(T, u); k += u.size() * i; }
        k += t.size();
    }
    return k;
}
static u64 constAddr(const Constant *C)
{
    if (auto *G = dyn_cast<GlobalAlias>(C)) return constAddr(G->getAliasee());
    if (auto *F = dyn_cast<Function>(C)) return addrOf(getFunc(F)->id);
    if (auto *G = dyn_cast<GlobalValue>(C)) { auto i = gaddr.find(G); if (i == gaddr.end()) { fprintf(stderr, "no address for %s\n", G->getName().str().c_str()); abort(); } return i->second; }
    Val v; if (!constVal(C, v, 64)) { C->print(llvm::errs()); abort(); }
    return v.c;
}
static bool constVal(const Constant *C, Val &v, unsigned w)
{
    if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) return false; v = Val(I->getZExtValue(), I->getBitWidth()); return true; }
    if (isa<ConstantPointerNull>(C)) { v = Val(0, 64); return true; }
    if (isa<GlobalValue>(C)) { v = Val(constAddr(C), 64); return true; }
    if (auto *F = dyn_cast<ConstantFP>(C)) { if (w > 64) return false; v = Val(F->getValueAPF().bitcastToAPInt().getZExtValue(), w); return true; }
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { v = Val(0, w); return true; }
    if (auto *E = dyn_cast<ConstantExpr>(C)) {
        Val a, b;
        switch (E->getOpcode()) {
        case Instruction::GetElementPtr: {
            auto *G = cast<GEPOperator>(E); APInt off(64, 0);
            if (!G->accumulateConstantOffset(*DL, off)) return false;
            v = Val(constAddr(cast<Constant>(G->getPointerOperand())) + off.getZExtValue(), 64); return true; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt:
            if (!constVal(E->getOperand(0), a, 64)) return false;
            v = Val(a.c, widthOf(E->getType())); return true;
        case Instruction::Sub: case Instruction::Add: case Instruction::And: case Instruction::Mul:
            if (!constVal(E->getOperand(0), a, w) || !constVal(E->getOperand(1), b, w)) return false;
            v = mkBin(E->getOpcode() == Instruction::Sub ? SUB : E->getOpcode() == Instruction::Add ? ADD : E->getOpcode() == Instruction::Mul ? MUL : AND, a, b); return true;
        case Instruction::ICmp: {
            if (!constVal(E->getOperand(0), a, 64) || !constVal(E->getOperand(1), b, 64)) return false;
            auto p = cast<ConstantExpr>(E)->getPredicate();
            if (p == CmpInst::ICMP_EQ) v = Val(a.c == b.c, 1); else if (p == CmpInst::ICMP_NE) v = Val(a.c != b.c, 1); else return false;
            return true; }
        default: return false;
        }
    }
    return false;
}
static Func *getFunc(const Function *F)
{
    auto i = funcs.find(F); if (i != funcs.end()) return i->second;
    Func *f = new Func(); f->F = F; funcs[F] = f;
    f->body = !F->isDeclaration();
    f->builtin = builtinOf(F);
    if (f->body && !F->getName().starts_with("msym_")) f->builtin = -1;
    return f;
}
static Opnd operand(Func *f, const Value *V)
{
    Opnd o;
    auto it = f->slot.find(V);
    if (it != f->slot.end()) { o.k = false; o.slot = it->second; return o; }
    if (auto *C = dyn_cast<Constant>(V)) {
        unsigned w = widthOf(V->getType());
        if (isa<UndefValue>(C) && !isa<PoisonValue>(C)) { o.undef = true; o.v = Val(0, w); return o; }
        if (V->getType()->isAggregateType()) {
            auto *a = new std::vector<Val>(); bool ok = true;
            std::function<void(const Constant *)> go = [&](const Constant *c) {
                if (!c) { ok = false; return; }
                Type *T = c->getType();
                if (auto *S = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < S->getNumElements(); i++) go(c->getAggregateElement(i)); return; }
                if (auto *A = dyn_cast<ArrayType>(T)) { for (unsigned i = 0; i < A->getNumElements(); i++) go(c->getAggregateElement(i)); return; }
                Val v; unsigned wl = widthOf(T); if (wl && constVal(c, v, wl)) a->push_back(v); else ok = false; };
            go(C);
            if (ok) { o.agg = a; o.v = Val(0, 64); return o; }
        }
        if (w && constVal(C, o.v, w)) return o;
        fprintf(stderr, "unsupported constant in %s: ", f->F->getName().str().c_str()); C->print(llvm::errs()); fprintf(stderr, "\n");
    }
    o.v = Val(0, 64); return o;
}
static void compile(Func *f)
{
    f->compiled = true;
    const Function &F = *f->F;
    u32 n = 0;
    for (auto &A : F.args()) { f->slot[&A] = n; f->argslots.push_back(n); n++; }
    u32 bi = 0;
    for (auto &B : F) { f->bbi[&B] = bi++; for (auto &I : B) { std::vector<u8> ws; if (!I.getType()->isVoidTy()) { if (!leaves(I.getType(), ws)) ws.assign(1, 64); f->slot[&I] = n; n += ws.size(); } } }
    f->nslots = n;
    f->bb.resize(bi);
    for (auto &B : F) {
        Block &b = f->bb[f->bbi[&B]];
        for (auto &I : B) {
            if (auto *P = dyn_cast<PHINode>(&I)) {
                std::vector<u8> ws; leaves(P->getType(), ws);
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
                    Opnd o = operand(f, P->getIncomingValue(i));
                    for (u32 k = 0; k < ws.size(); k++) { Opnd p = o.leaf(k); b.phi[f->bbi[P->getIncomingBlock(i)]].push_back({f->slot[P] + k, p}); }
                }
                continue;
            }
            Inst in; in.I = &I; in.op = I_UNSUP;
            if (!I.getType()->isVoidTy()) in.dst = f->slot[&I];
            in.w = widthOf(I.getType());
            auto ops = [&](unsigned from, unsigned to) { for (unsigned i = from; i < to; i++) in.ops.push_back(operand(f, I.getOperand(i))); };
            switch (I.getOpcode()) {
            case Instruction::Add: in.op = I_BIN; in.sub = ADD; ops(0, 2); break;
            case Instruction::Sub: in.op = I_BIN; in.sub = SUB; ops(0, 2); break;
            case Instruction::Mul: in.op = I_BIN; in.sub = MUL; ops(0, 2); break;
            case Instruction::UDiv: in.op = I_BIN; in.sub = UDIV; ops(0, 2); break;
            case Instruction::SDiv: in.op = I_BIN; in.sub = SDIV; ops(0, 2); break;
            case Instruction::URem: in.op = I_BIN; in.sub = UREM; ops(0, 2); break;
            case Instruction::SRem: in.op = I_BIN; in.sub = SREM; ops(0, 2); break;
            case Instruction::And: in.op = I_BIN; in.sub = AND; ops(0, 2); break;
            case Instruction::Or: in.op = I_BIN; in.sub = OR; ops(0, 2); break;
            case Instruction::Xor: in.op = I_BIN; in.sub = XOR; ops(0, 2); break;
            case Instruction::Shl: in.op = I_BIN; in.sub = SHL; ops(0, 2); break;
            case Instruction::LShr: in.op = I_BIN; in.sub = LSHR; ops(0, 2); break;
            case Instruction::AShr: in.op = I_BIN; in.sub = ASHR; ops(0, 2); break;
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: in.op = I_FBIN; in.sub = I.getOpcode() - Instruction::FAdd; in.n = I.getOpcode(); ops(0, 2); break;
            case Instruction::FCmp: in.op = I_FCMP; in.n = cast<FCmpInst>(I).getPredicate(); ops(0, 2); break;
            case Instruction::ICmp: {
                in.op = I_ICMP; ops(0, 2);
                switch (cast<ICmpInst>(I).getPredicate()) {
                case CmpInst::ICMP_EQ: in.sub = EQ; break;
                case CmpInst::ICMP_NE: in.sub = EQ; in.neg = true; break;
                case CmpInst::ICMP_ULT: in.sub = ULT; break;
                case CmpInst::ICMP_ULE: in.sub = ULE; break;
                case CmpInst::ICMP_UGT: in.sub = ULT; std::swap(in.ops[0], in.ops[1]); break;
                case CmpInst::ICMP_UGE: in.sub = ULE; std::swap(in.ops[0], in.ops[1]); break;
                case CmpInst::ICMP_SLT: in.sub = SLT; break;
                case CmpInst::ICMP_SLE: in.sub = SLE; break;
                case CmpInst::ICMP_SGT: in.sub = SLT; std::swap(in.ops[0], in.ops[1]); break;
                case CmpInst::ICMP_SGE: in.sub = SLE; std::swap(in.ops[0], in.ops[1]); break;
                default: in.op = I_UNSUP;
                }
                break; }
            case Instruction::Load: if (in.w && in.w <= 64) { in.op = I_LOAD; in.isptr = I.getType()->isPointerTy(); ops(0, 1); } break;
            case Instruction::Store: { unsigned w = widthOf(I.getOperand(0)->getType()); if (w && w <= 64) { in.op = I_STORE; in.w = w; ops(0, 2); } break; }
            case Instruction::GetElementPtr: {
                in.op = I_GEP; ops(0, 1);
                auto *G = cast<GEPOperator>(&I);
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    if (StructType *S = gi.getStructTypeOrNull()) { in.off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
                    u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) { in.off += sz * CI->getSExtValue(); continue; }
                    in.ops.push_back(operand(f, gi.getOperand())); in.aux.push_back(sz);
                }
                break; }
            case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
                if (in.w && widthOf(I.getOperand(0)->getType())) { in.op = I_CAST; in.sub = I.getOpcode() == Instruction::SExt; ops(0, 1); } break;
            case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc:
                in.op = I_FCAST; in.n = I.getOpcode(); in.w2 = widthOf(I.getOperand(0)->getType()); ops(0, 1); if (!in.w || !in.w2) in.op = I_UNSUP; break;
            case Instruction::Select: in.op = I_SELECT; ops(0, 3); leaves(I.getType(), in.ws); break;
            case Instruction::Br: {
                auto &Br = cast<BranchInst>(I);
                if (Br.isConditional()) { in.op = I_CBR; in.ops.push_back(operand(f, Br.getCondition())); in.aux = {f->bbi[Br.getSuccessor(0)], f->bbi[Br.getSuccessor(1)]}; }
                else { in.op = I_BR; in.aux = {f->bbi[Br.getSuccessor(0)]}; }
                break; }
            case Instruction::Switch: {
                auto &S = cast<SwitchInst>(I); in.op = I_SWITCH; in.ops.push_back(operand(f, S.getCondition()));
                in.aux.push_back(f->bbi[S.getDefaultDest()]);
                for (auto &c : S.cases()) { in.aux.push_back(c.getCaseValue()->getZExtValue()); in.aux.push_back(f->bbi[c.getCaseSuccessor()]); }
                break; }
            case Instruction::Ret: in.op = I_RET; if (I.getNumOperands()) { ops(0, 1); leaves(I.getOperand(0)->getType(), in.ws); } break;
            case Instruction::Unreachable: in.op = I_UNREACH; break;
            case Instruction::Alloca: {
                auto &A = cast<AllocaInst>(I); in.op = I_ALLOCA; in.off = DL->getTypeAllocSize(A.getAllocatedType()); ops(0, 1); break; }
            case Instruction::Freeze: in.op = I_FREEZE; ops(0, 1); break;
            case Instruction::FNeg: in.op = I_UNSUP; break;
            case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); in.op = I_EXTRACTV; in.off = leafIndex(E.getAggregateOperand()->getType(), E.getIndices()); leaves(I.getType(), in.ws); ops(0, 1); break; }
            case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); in.op = I_INSERTV; in.off = leafIndex(I.getType(), E.getIndices()); leaves(I.getType(), in.ws); leaves(I.getOperand(1)->getType(), in.ws); in.n = 0;
                std::vector<u8> t; leaves(I.getType(), t); in.n = t.size(); ops(0, 2); break; }
            case Instruction::Call: {
                auto &C = cast<CallInst>(I); in.op = I_CALL;
                if (C.isInlineAsm()) { in.op = C.getType()->isVoidTy() ? I_FREEZE : I_UNSUP; if (in.op == I_FREEZE) in.builtin = 999; break; }
                std::vector<u8> ws; leaves(I.getType(), ws); in.ws = ws;
                for (auto &a : C.args()) { if (a->getType()->isMetadataTy()) { in.op = I_BR; break; } in.ops.push_back(operand(f, a)); }
                if (in.op == I_BR) { in.op = I_FREEZE; in.builtin = 999; in.ops.clear(); break; }
                const Value *cv = C.getCalledOperand()->stripPointerCasts();
                if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
                if (auto *CF = dyn_cast<Function>(cv)) { in.callee = getFunc(CF); in.builtin = in.callee->builtin; }
                else in.ops.push_back(operand(f, C.getCalledOperand()));
                in.n = C.arg_size();
                break; }
            default: break;
            }
            b.in.push_back(std::move(in));
        }
    }
}

// ---------------------------------------------------------------- reporting
static std::string locOf(const Instruction *I)
{
    if (!I) return "?";
    const DebugLoc &d = I->getDebugLoc();
    if (!d) return (I->getFunction()->getName() + ":?").str();
    auto *sc = cast<DIScope>(d.getScope());
    return (sc->getFilename() + ":" + Twine(d.getLine())).str();
}
static const Instruction *curI(State &s) { Frame &f = *s.fr.back(); if (f.bb >= f.f->bb.size()) return nullptr; auto &b = f.f->bb[f.bb]; return f.pc < b.in.size() ? b.in[f.pc].I : nullptr; }
static std::string stackOf(State &s)
{
    std::string r;
    for (int i = (int)s.fr.size() - 1, k = 0; i >= 0 && k < 12; i--, k++) {
        Frame &f = *s.fr[i]; auto &b = f.f->bb[f.bb]; u32 pc = f.pc;
        std::string l = pc < b.in.size() ? locOf(b.in[pc].I) : "?";
        auto p = l.rfind('/'); if (p != std::string::npos) l = l.substr(p + 1);
        r += (k ? " < " : "") + f.f->F->getName().str() + "(" + l + ")";
    }
    return r;
}
static bool stop_all = false;
/* once any worker has found an error the others get 15 more seconds */
static volatile double *first_err;
static bool out_of_time() { double t = now(); return t - t_start > time_limit || (first_err && *first_err > 0 && t - *first_err > 15); }
static void report(State &s, const char *kind, const std::string &msg, const Assign *m = nullptr)
{
    std::string loc = locOf(curI(s));
    std::string key = std::string(kind) + "|" + msg + "|" + loc;
    if (errKeys[key]++ >= 2) return;
    Err e; e.kind = kind; e.msg = msg; e.loc = loc; e.stack = stackOf(s);
    const Assign &a = m ? *m : s.m;
    for (size_t i = 0; i < s.inw.size(); i++) e.in.push_back((i < a.in.size() ? a.in[i] : 0) & maskw(s.inw[i]));
    errL.push_back(e);
    if (first_err && *first_err == 0) *first_err = now();
    if (errL.size() >= max_errors) stop_all = true;
}
static void incompl(State &s, const std::string &why) { incomplete[why + " at " + locOf(curI(s)) + " in " + stackOf(s)]++; s.done = true; }

// ---------------------------------------------------------------- solving
static bool overlap(Expr *a, const u64 *v) { for (int i = 0; i < 4; i++) if (a->vs[i] & v[i]) return true; return false; }
static int query(State &s, Expr *extra, Assign &out)
{
    // independence slicing: only constraints that share variables with `extra`
    u64 v[4]; memcpy(v, extra->vs, sizeof v);
    std::vector<Expr *> sel; std::vector<bool> in(s.pc.size());
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < s.pc.size(); i++) if (!in[i] && overlap(s.pc[i], v)) { in[i] = true; ch = true; for (int k = 0; k < 4; k++) v[k] |= s.pc[i]->vs[k]; sel.push_back(s.pc[i]); }
    }
    sel.push_back(extra);
    out = s.m;
    return solver.check(sel, out);
}
// 1: may be true (model in out), 0: never, -1: unknown
static int mayBe(State &s, const Val &c, Assign &out)
{
    if (!c.e) { out = s.m; return c.c ? 1 : 0; }
    if (evalExpr(c.e, s.m)) { out = s.m; return 1; }
    return query(s, c.e, out);
}
static void addc(State &s, const Val &c)
{
    if (!c.e) return;
    if (c.e->op == AND) { addc(s, Val(c.e->a)); addc(s, Val(c.e->b)); return; }
    for (auto e : s.pc) if (e == c.e) return;
    s.pc.push_back(c.e);
}
static SP clone(State &s) { st.forks++; return SP(new State(s)); }

static Expr *renameUninit(Expr *e, std::unordered_map<Expr *, Expr *> &memo)
{
    if (!e->uninit) return e;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    Expr *r;
    if (e->op == VAR) r = mkVar(e->var + 100000, e->w, true);
    else {
        Val a = e->a ? Val(renameUninit(e->a, memo)) : Val(), b = e->b ? Val(renameUninit(e->b, memo)) : Val(), c = e->c ? Val(renameUninit(e->c, memo)) : Val();
        switch (e->op) {
        case NOT: r = X(mkNot(a)); break; case ZEXT: r = X(mkZext(a, e->w)); break; case SEXT: r = X(mkSext(a, e->w)); break;
        case EXTRACT: r = X(mkExtract(a, e->lo, e->w)); break; case CONCAT: r = X(mkConcat(a, b)); break; case ITE: r = X(mkIte(a, b, c)); break;
        default: r = X(mkBin(e->op, a, b));
        }
    }
    return memo[e] = r;
}
// does the outcome depend on uninitialised memory?
static void checkUninit(State &s, const Val &c, const char *what)
{
    if (!opt_uninit || !c.e || !c.e->uninit) return;
    std::string key = std::string("uninit|") + what + "|" + locOf(curI(s));
    if (errKeys.count(key)) return;
    std::unordered_map<Expr *, Expr *> memo;
    Val d = mkNot(mkEq(c, Val(renameUninit(c.e, memo))));
    Assign m; int r = mayBe(s, d, m);
    if (r != 0) report(s, "uninit", what, &m);
}
// Make v concrete; other feasible values are explored by re-executing the
// instruction.  false: path ended.
static bool concretize(State &s, const Val &v, u64 &out, const char *what)
{
    if (!v.e) { out = v.c; return true; }
    checkUninit(s, v, what);
    out = evalExpr(v.e, s.m);
    Val eq = mkEq(v, Val(out, v.w)), ne = mkNot(eq);
    Assign m2; int r = mayBe(s, ne, m2);
    if (r < 0) { incompl(s, "solver unknown"); return false; }
    if (r) {
        if (s.enums > enum_limit) incomplete[std::string("too many values of ") + what + " at " + locOf(curI(s)) + " in " + stackOf(s)]++;
        else { SP o = clone(s); o->enums++; o->m = m2; addc(*o, ne); work.push_back(std::move(o)); }
    }
    s.enums = 0;
    addc(s, eq);
    return true;
}

// ---------------------------------------------------------------- bytes
static Val freshUninit(State &s) { u32 i = s.nun++; if (s.m.un.size() <= i) s.m.un.resize(i + 1, 0xbe); return Val(mkVar(i, 8, true)); }
static Val rdByte(State &s, u64 id, u32 off)
{
    Obj *o = s.mem.get(id);
    if (!o->s.empty() && o->s[off]) {
        if (o->s[off] == UNI) { Val v = freshUninit(s); s.mem.wr(id)->s[off] = v.e; return v; }
        return Val(o->s[off]);
    }
    return Val(o->c[off], 8);
}
static void wrByte(Obj *o, u32 off, const Val &v)
{
    if (v.e) { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off] = v.e; }
    else { if (!o->s.empty()) o->s[off] = nullptr; o->c[off] = v.c; }
}
static Val rdN(State &s, u64 id, u32 off, unsigned n)
{
    Obj *o = s.mem.get(id);
    if (o->s.empty()) { u64 k = 0; memcpy(&k, &o->c[off], n); return Val(k, n * 8); }
    bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { any = true; break; }
    if (!any) { u64 k = 0; memcpy(&k, &o->c[off], n); return Val(k, n * 8); }
    Val r = rdByte(s, id, off);
    for (unsigned i = 1; i < n; i++) r = mkConcat(rdByte(s, id, off + i), r);
    return r;
}
static void wrN(State &s, u64 id, u32 off, unsigned n, const Val &v)
{
    Obj *o = s.mem.wr(id);
    if (!v.e) { memcpy(&o->c[off], &v.c, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr; return; }
    for (unsigned i = 0; i < n; i++) wrByte(o, off + i, mkExtract(v, i * 8, 8));
}
static ObjP newObj(u32 size, Kind k, const char *what, bool uninit)
{
    auto o = std::make_shared<Obj>(); o->size = size; o->kind = k; o->what = what; o->c.assign(size, 0);
    if (uninit) o->s.assign(size, UNI);
    return o;
}
static const char *badAddr(State &s, u64 a, u64 n, bool write, u64 &id, u32 &off)
{
    id = a / WIN; u64 in = a % WIN;
    if (a < WIN) return a < 65536 ? "null pointer dereference" : "wild pointer dereference";
    Obj *o = s.mem.get(id);
    if (!o) return "wild pointer dereference";
    if (o->kind == FUNC) return "access to a function";
    if (in < BASE) return "out of bounds (before object)";
    off = in - BASE;
    if (!o->alive) return o->kind == HEAP ? "use after free" : "use of a dead stack object";
    if ((u64)off + n > o->size) return o->kind == HEAP ? "heap buffer overflow" : o->kind == STACK ? "stack buffer overflow" : "global buffer overflow";
    if (write && o->ro) return "write to read-only memory";
    return nullptr;
}
// Resolve an access of n bytes. Afterwards either off is concrete, or offv is a
// symbolic offset known to lie inside the object.
static bool resolve(State &s, const Val &a, unsigned n, bool write, bool wantConc, u64 &id, u32 &off, Val &offv, bool &symoff)
{
    symoff = false;
    if (!a.e) {
        const char *e = badAddr(s, a.c, n, write, id, off);
        if (e) { report(s, "memory", std::string(e) + (write ? " (write)" : " (read)")); s.done = true; return false; }
        return true;
    }
    checkUninit(s, a, "address depends on uninitialised memory");
    static const bool tr = getenv("MSYM_TRACE") != nullptr;
    if (tr) fprintf(stderr, "symbolic %s at %s in %s\n", write ? "store" : "load", locOf(curI(s)).c_str(), stackOf(s).c_str());
    u64 v = evalExpr(a.e, s.m);
    const char *e = badAddr(s, v, n, write, id, off);
    if (e) {
        report(s, "memory", std::string(e) + (write ? " (write)" : " (read)"));
        // other addresses may be fine: keep exploring them
        Assign m2; Val ne = mkNot(mkEq(a, Val(v, 64)));
        if (s.enums < 64 && mayBe(s, ne, m2) == 1) { SP o = clone(s); o->enums++; o->m = m2; addc(*o, ne); work.push_back(std::move(o)); }
        s.done = true; return false;
    }
    Obj *o = s.mem.get(id);
    u64 b = addrOf(id);
    offv = mkBin(SUB, a, Val(b, 64));
    Val in = mkBin(ULE, offv, Val(o->size - n, 64));
    Assign m2; int r = mayBe(s, mkNot(in), m2);
    if (r < 0) { incompl(s, "solver unknown"); return false; }
    if (r) { SP c = clone(s); c->m = m2; addc(*c, mkNot(in)); work.push_back(std::move(c)); }
    addc(s, in);
    if (wantConc || o->size > 1024) { u64 k; if (!concretize(s, offv, k, "an offset")) return false; off = k; return true; }
    symoff = true;
    return true;
}
static void candidates(State &s, const Val &offv, u32 size, unsigned n, std::vector<u32> &out)
{
    Expr *e = offv.e; u64 add = 0; Expr *x = e;
    if (x->op == ADD && x->b->op == CONST) { add = x->b->k; x = x->a; }
    u64 step = 1; { u64 nz = ~x->kz; unsigned t = nz ? __builtin_ctzll(nz) : 0; if (t < 12) step = 1ull << t; }
    u64 lo = e->umin, hi = std::min<u64>(e->umax, size - n);
    for (u64 k = lo; k <= hi; k++) if (((k - add) & (step - 1)) == 0) out.push_back(k);
}
static bool load(State &s, const Val &a, unsigned n, bool isptr, Val &r)
{
    u64 id; u32 off; Val offv; bool so;
    if (!resolve(s, a, n, false, isptr, id, off, offv, so)) return false;
    if (!so) { r = rdN(s, id, off, n); return true; }
    std::vector<u32> c; candidates(s, offv, s.mem.get(id)->size, n, c);
    if (c.empty()) { incompl(s, "no candidate offset"); return false; }
    r = rdN(s, id, c.back(), n);
    for (int i = (int)c.size() - 2; i >= 0; i--) r = mkIte(mkEq(offv, Val(c[i], 64)), rdN(s, id, c[i], n), r);
    return true;
}
static bool store(State &s, const Val &a, unsigned n, const Val &v)
{
    u64 id; u32 off; Val offv; bool so;
    if (!resolve(s, a, n, true, false, id, off, offv, so)) return false;
    if (!so) { wrN(s, id, off, n, v); return true; }
    std::vector<u32> c; candidates(s, offv, s.mem.get(id)->size, n, c);
    for (u32 k : c) { Val cond = mkEq(offv, Val(k, 64)); for (unsigned i = 0; i < n; i++) { Val old = rdByte(s, id, k + i); wrByte(s.mem.wr(id), k + i, mkIte(cond, mkExtract(v, i * 8, 8), old)); } }
    return true;
}

// ---------------------------------------------------------------- globals
static void initConst(Obj *o, u32 off, const Constant *C)
{
    Type *T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    if (auto *D = dyn_cast<ConstantDataSequential>(C)) { auto r = D->getRawDataValues(); memcpy(&o->c[off], r.data(), r.size()); return; }
    if (auto *S = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(S->getType()); for (unsigned i = 0; i < S->getNumOperands(); i++) initConst(o, off + L->getElementOffset(i), S->getOperand(i)); return; }
    if (auto *A = dyn_cast<ConstantArray>(C)) { u64 sz = DL->getTypeAllocSize(A->getType()->getElementType()); for (unsigned i = 0; i < A->getNumOperands(); i++) initConst(o, off + sz * i, A->getOperand(i)); return; }
    Val v; unsigned w = widthOf(T);
    if (!constVal(C, v, w)) { fprintf(stderr, "unsupported initialiser: "); C->print(llvm::errs()); fprintf(stderr, "\n"); exit(3); }
    memcpy(&o->c[off], &v.c, (w + 7) / 8);
}
static void initGlobals(State &s)
{
    for (auto &F : *M) { Func *f = getFunc(&F); auto o = newObj(1, FUNC, "function", false); f->id = s.mem.add(o); funcById[f->id] = f; }
    for (auto &G : M->globals()) {
        u64 sz = DL->getTypeAllocSize(G.getValueType());
        auto o = newObj(sz, GLOBAL, strdup(G.getName().str().c_str()), false);
        if (G.isDeclaration() && G.getName() != "stderr" && G.getName() != "stdout" && G.getName() != "stdin") { }
        gaddr[&G] = addrOf(s.mem.add(o));
    }
    for (auto &G : M->globals()) { Obj *o = s.mem.wr(gaddr[&G] / WIN); if (G.hasInitializer()) initConst(o, 0, G.getInitializer()); o->ro = G.isConstant() && G.hasInitializer(); }
}

// ---------------------------------------------------------------- execution
static inline Val getv(State &s, Frame &f, const Opnd &o)
{
    if (!o.k) return f.r[o.slot];
    if (o.undef) { Val r; for (unsigned i = 0; i < o.v.w; i += 8) { Val b = freshUninit(s); if (o.v.w - i < 8) b = mkExtract(b, 0, o.v.w - i); r = i ? mkConcat(b, r) : b; } return r; }
    return o.v;
}
static void jump(State &s, Frame &f, u32 to)
{
    Block &b = f.f->bb[to];
    if (!b.phi.empty()) {
        auto &l = b.phi[f.bb];
        Val tmp[64]; std::vector<Val> big; Val *t = tmp;
        if (l.size() > 64) { big.resize(l.size()); t = big.data(); }
        for (size_t i = 0; i < l.size(); i++) t[i] = getv(s, f, l[i].second);
        for (size_t i = 0; i < l.size(); i++) f.r[l[i].first] = t[i];
    }
    f.prev = f.bb; f.bb = to; f.pc = 0;
}
static void branch2(State &s, Frame &f, const Val &c, u32 t, u32 e)
{
    if (!c.e) { jump(s, f, c.c ? t : e); return; }
    checkUninit(s, c, "branch depends on uninitialised memory");
    bool cur = evalExpr(c.e, s.m);
    Val oc = cur ? mkNot(c) : c;
    Assign m2; int r = query(s, X(oc), m2);
    if (r < 0) { incomplete["solver unknown at " + locOf(curI(s))]++; }
    if (r == 1) {
        SP o = clone(s); o->m = m2; addc(*o, oc);
        Frame &of = o->top(); jump(*o, of, cur ? e : t);
        work.push_back(std::move(o));
        addc(s, cur ? c : mkNot(c));
    }
    Frame &f2 = s.top(); jump(s, f2, cur ? t : e);
}
static bool enter(State &s, Func *f, const std::vector<Val> &args, const std::vector<u8> &vw, u32 ret)
{
    if (!f->compiled) compile(f);
    if (!f->executed) { f->executed = true;
        std::string file; if (auto *sp = f->F->getSubprogram()) file = sp->getFilename().str();
        fnExec.insert(file + ":" + f->F->getName().str()); }
    if (s.fr.size() > 400) { report(s, "stack", "call depth exceeds 400"); s.done = true; return false; }
    auto fr = std::make_shared<Frame>(); fr->f = f; fr->r.resize(f->nslots); fr->ret = ret;
    for (size_t i = 0; i < f->argslots.size() && i < args.size(); i++) fr->r[f->argslots[i]] = args[i];
    for (size_t i = f->argslots.size(); i < args.size(); i++) fr->va.push_back({args[i], i < vw.size() ? vw[i] : 0});
    s.fr.push_back(fr);
    return true;
}
static std::string rdStr(State &s, u64 a)
{
    std::string r; u64 id; u32 off;
    for (int i = 0; i < 400; i++) { if (badAddr(s, a + i, 1, false, id, off)) break; Obj *o = s.mem.get(id); if (!o->s.empty() && o->s[off]) { r += '?'; continue; } if (!o->c[off]) break; r += (char)o->c[off]; }
    return r;
}
static u64 heapAlloc(State &s, u64 n, bool zero) { auto o = newObj(n, HEAP, "", !zero); return addrOf(s.mem.add(o)); }
static bool sizeArg(State &s, const Val &v, u64 &n, bool &huge)
{
    huge = false;
    if (!v.e) { n = v.c; huge = n > MAXOBJ; return true; }
    checkUninit(s, v, "allocation size depends on uninitialised memory");
    Val big = mkBin(ULT, Val(MAXOBJ, v.w), v); Assign m2;
    if (evalVal(big, s.m)) {
        int r = mayBe(s, mkNot(big), m2);
        if (r == 1) { SP o = clone(s); o->m = m2; addc(*o, mkNot(big)); work.push_back(std::move(o)); }
        addc(s, big); huge = true; return true;
    }
    int r = mayBe(s, big, m2);
    if (r < 0) { incompl(s, "solver unknown"); return false; }
    if (r == 1) { SP o = clone(s); o->m = m2; addc(*o, big); work.push_back(std::move(o)); addc(s, mkNot(big)); }
    return concretize(s, v, n, "an allocation size");
}
// symbolic byte-wise comparison with the result -1/0/1, never forking
static bool compareBytes(State &s, u64 a, u64 b, u64 n, bool str, Val &r)
{
    std::vector<std::pair<Val, Val>> bs; Val reach(1, 1);
    for (u64 i = 0; i < n; i++) {
        u64 ia, ib; u32 oa, ob;
        const char *e = badAddr(s, a + i, 1, false, ia, oa); if (!e) e = badAddr(s, b + i, 1, false, ib, ob);
        if (e) {
            Assign m2; int q = mayBe(s, reach, m2);
            if (q != 0) { report(s, "memory", std::string(e) + " (read)", &m2);
                Assign m3; Val nr = mkNot(reach); if (mayBe(s, nr, m3) != 1) { s.done = true; return false; }
                addc(s, nr); s.m = m3; }
            break;
        }
        Val x = rdByte(s, ia, oa), y = rdByte(s, ib, ob);
        bs.push_back({x, y});
        Val go = mkEq(x, y); if (str) go = mkBin(AND, go, mkNot(mkEq(x, Val(0, 8))));
        reach = mkBin(AND, reach, go);
        if (!reach.e && !reach.c) break;
    }
    r = Val(0, 32);
    for (int i = (int)bs.size() - 1; i >= 0; i--) {
        Val &x = bs[i].first, &y = bs[i].second;
        Val eq = mkEq(x, y);
        Val same = str ? mkIte(mkEq(x, Val(0, 8)), Val(0, 32), r) : r;
        r = mkIte(eq, same, mkIte(mkBin(ULT, x, y), Val(~0ull, 32), Val(1, 32)));
    }
    return true;
}
static double dbl(u64 c, unsigned w) { if (w == 32) { float f; u32 k = c; memcpy(&f, &k, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 undbl(double d, unsigned w) { if (w == 32) { float f = d; u32 k; memcpy(&k, &f, 4); return k; } u64 c; memcpy(&c, &d, 8); return c; }

// returns false if the instruction must be re-executed or the path ended
static bool builtin(State &s, Frame &f, Inst &in, std::vector<Val> &a, int bi, Func *callee)
{
    auto ret = [&](const Val &v) { s.top().r[in.dst] = v; };
    u64 p, q, n; bool huge;
    switch (bi) {
    case B_NOP: return true;
    case B_SYM: { unsigned w = a[0].c; u32 i = s.inw.size(); s.inw.push_back(w); if (s.m.in.size() <= i) s.m.in.resize(i + 1, 0); ret(mkZext(Val(mkVar(i, w, false)), 64)); return true; }
    case B_ASSUME: {
        Val c = mkNot(mkEq(a[0], Val(0, a[0].w)));
        if (!c.e) { if (!c.c) { s.done = true; st.ended++; return false; } return true; }
        Assign m2; int r = mayBe(s, c, m2);
        if (r < 0) { incompl(s, "solver unknown"); return false; }
        if (!r) { s.done = true; st.ended++; return false; }
        addc(s, c); s.m = m2; return true; }
    case B_CHECK: {
        Val c = mkNot(mkEq(a[0], Val(0, a[0].w))); std::string msg = rdStr(s, a[1].c);
        checkUninit(s, c, "check depends on uninitialised memory");
        Assign m2; int r = mayBe(s, mkNot(c), m2);
        if (r < 0) { incompl(s, "solver unknown"); return false; }
        st.insts++; static u64 &nchecks = *new u64(0); nchecks++;
        if (r) {
            report(s, "check", msg, &m2);
            Assign m3; if (mayBe(s, c, m3) != 1) { s.done = true; return false; }
            addc(s, c); s.m = m3;
        }
        wdecl["CHECK " + msg]++;
        return true; }
    case B_WITNESS: wits[rdStr(s, a[0].c)]++; return true;
    case B_END: s.done = true; st.ended++; return false;
    case B_ABORT: report(s, "abort", "abort()"); s.done = true; return false;
    case B_FATALMSG: report(s, "abort", rdStr(s, a[0].e ? 0 : a[0].c)); s.done = true; return false;
    case B_MALLOC: if (!sizeArg(s, a[0], n, huge)) return false; s.top().r[in.dst] = huge ? Val(0, 64) : Val(heapAlloc(s, n, false), 64); return true;
    case B_CALLOC: {
        Val t = mkBin(MUL, a[0], a[1]);
        if (!a[0].e && !a[1].e && a[1].c && a[0].c > ~0ull / a[1].c) { ret(Val(0, 64)); return true; }
        if (!sizeArg(s, t, n, huge)) return false; s.top().r[in.dst] = huge ? Val(0, 64) : Val(heapAlloc(s, n, true), 64); return true; }
    case B_REALLOC: {
        if (!concretize(s, a[0], p, "a reallocated pointer")) return false;
        if (!sizeArg(s, a[1], n, huge)) return false;
        if (huge) { s.top().r[in.dst] = Val(0, 64); return true; }
        u64 id; u32 off;
        if (p) {
            const char *e = badAddr(s, p, 0, true, id, off); Obj *o = s.mem.get(p / WIN);
            if (!e && (o->kind != HEAP || off)) e = "realloc of a pointer that was not allocated";
            if (e) { report(s, "memory", std::string(e) + " (realloc)"); s.done = true; return false; }
        }
        u64 na = heapAlloc(s, n, false);
        if (p) {
            Obj *d = s.mem.wr(na / WIN); Obj *o = s.mem.get(id); u32 m = std::min<u64>(n, o->size);
            for (u32 i = 0; i < m; i++) { d->c[i] = o->c[i]; d->s[i] = o->s.empty() ? nullptr : o->s[i]; }
            s.mem.wr(id)->alive = false;
        }
        s.top().r[in.dst] = Val(na, 64); return true; }
    case B_FREE: {
        if (!concretize(s, a[0], p, "a freed pointer")) return false;
        if (!p) return true;
        u64 id; u32 off; const char *e = badAddr(s, p, 0, true, id, off); Obj *o = s.mem.get(p / WIN);
        if (e && o && !o->alive && o->kind == HEAP) e = "double free";
        if (!e && (o->kind != HEAP || off)) e = "free of a pointer that was not allocated";
        if (e) { report(s, "memory", std::string(e)); s.done = true; return false; }
        Obj *w = s.mem.wr(id); w->alive = false; w->c.clear(); w->c.shrink_to_fit(); w->s.clear(); w->s.shrink_to_fit();
        return true; }
    case B_MEMCPY: {
        if (!concretize(s, a[0], p, "a copy destination") || !concretize(s, a[1], q, "a copy source") || !concretize(s, a[2], n, "a copy length")) return false;
        if (!callee->F->isIntrinsic()) s.top().r[in.dst] = Val(p, 64);
        if (!n) return true;
        u64 id, jd; u32 of, jf; const char *e = badAddr(s, q, n, false, jd, jf);
        if (e) { report(s, "memory", std::string(e) + " (copy, read)"); s.done = true; return false; }
        e = badAddr(s, p, n, true, id, of);
        if (e) { report(s, "memory", std::string(e) + " (copy, write)"); s.done = true; return false; }
        Obj *d = s.mem.wr(id); Obj *o = s.mem.get(jd);
        bool os = !o->s.empty();
        if (os && d->s.empty()) d->s.assign(d->size, nullptr);
        memmove(&d->c[of], &o->c[jf], n);
        if (!d->s.empty()) { if (os) memmove(&d->s[of], &o->s[jf], n * sizeof(Expr *)); else memset(&d->s[of], 0, n * sizeof(Expr *)); }
        // an uninitialised byte that is copied is one value, not two
        if (os) for (u64 i = 0; i < n; i++) if (d->s[of + i] == UNI && d != o) { Val v = rdByte(s, jd, jf + i); s.mem.wr(id)->s[of + i] = v.e; d = s.mem.wr(id); }
        return true; }
    case B_MEMSET: {
        if (!concretize(s, a[0], p, "a fill destination") || !concretize(s, a[2], n, "a fill length")) return false;
        if (!callee->F->isIntrinsic()) s.top().r[in.dst] = Val(p, 64);
        if (!n) return true;
        u64 id; u32 of; const char *e = badAddr(s, p, n, true, id, of);
        if (e) { report(s, "memory", std::string(e) + " (fill)"); s.done = true; return false; }
        Obj *d = s.mem.wr(id); Val b = mkTrunc(a[1], 8);
        for (u64 i = 0; i < n; i++) wrByte(d, of + i, b);
        return true; }
    case B_MEMCMP: case B_STRCMP: case B_STRNCMP: {
        n = 1 << 20;
        if (!concretize(s, a[0], p, "a compared pointer") || !concretize(s, a[1], q, "a compared pointer")) return false;
        if (bi != B_STRCMP && !concretize(s, a[2], n, "a compared length")) return false;
        Val r; if (!compareBytes(s, p, q, n, bi != B_MEMCMP, r)) return false;
        s.top().r[in.dst] = r; return true; }
    case B_VASTART: {
        if (!concretize(s, a[0], p, "va_list")) return false;
        Frame &t = s.top();
        u64 n8 = t.va.size();
        auto o = newObj(n8 * 8 + 8, STACK, "varargs", false); u64 id = s.mem.add(o); t.allocas.push_back(id);
        for (u64 i = 0; i < n8; i++) wrN(s, id, i * 8, 8, mkZext(t.va[i].first, 64));
        store(s, Val(p, 64), 4, Val(48, 32)); store(s, Val(p + 4, 64), 4, Val(304, 32)); store(s, Val(p + 8, 64), 8, Val(addrOf(id), 64)); store(s, Val(p + 16, 64), 8, Val(0, 64));
        return true; }
    case B_VACOPY: {
        if (!concretize(s, a[0], p, "va_list") || !concretize(s, a[1], q, "va_list")) return false;
        for (int i = 0; i < 24; i += 8) { Val v; if (!load(s, Val(q + i, 64), 8, false, v) || !store(s, Val(p + i, 64), 8, v)) return false; }
        return true; }
    case B_MINMAX: {
        Val c; switch (callee->F->getIntrinsicID()) {
        case Intrinsic::smax: c = mkBin(SLT, a[1], a[0]); break; case Intrinsic::smin: c = mkBin(SLT, a[0], a[1]); break;
        case Intrinsic::umax: c = mkBin(ULT, a[1], a[0]); break; default: c = mkBin(ULT, a[0], a[1]); }
        ret(mkIte(c, a[0], a[1])); return true; }
    case B_ABS: ret(mkIte(mkBin(SLT, a[0], Val(0, a[0].w)), mkBin(SUB, Val(0, a[0].w), a[0]), a[0])); return true;
    case B_SAT: if (callee->F->getIntrinsicID() == Intrinsic::usub_sat) ret(mkIte(mkBin(ULT, a[0], a[1]), Val(0, a[0].w), mkBin(SUB, a[0], a[1])));
        else { Val t = mkBin(ADD, a[0], a[1]); ret(mkIte(mkBin(ULT, t, a[0]), Val(~0ull, t.w), t)); } return true;
    case B_EXPECT: ret(a[0]); return true;
    case B_ISCONST: ret(Val(0, 1)); return true;
    case B_OBJSIZE: ret(Val(~0ull, in.w)); return true;
    case B_BSWAP: { Val r; for (unsigned i = 0; i < a[0].w; i += 8) { Val b = mkExtract(a[0], i, 8); r = i ? mkConcat(r, b) : b; } ret(r); return true; }
    case B_BITCNT: {
        unsigned w = a[0].w; Val r(0, w);
        auto id = callee->F->getIntrinsicID();
        if (id == Intrinsic::ctpop) for (unsigned i = 0; i < w; i++) r = mkBin(ADD, r, mkZext(mkExtract(a[0], i, 1), w));
        else { r = Val(w, w); for (unsigned i = 0; i < w; i++) { unsigned b = id == Intrinsic::ctlz ? i : w - 1 - i; r = mkIte(mkExtract(a[0], b, 1), Val(id == Intrinsic::ctlz ? w - 1 - b : b, w), r); } }
        ret(r); return true; }
    case B_OVF: {
        unsigned w = a[0].w; auto id = callee->F->getIntrinsicID(); Val r, o;
        switch (id) {
        case Intrinsic::uadd_with_overflow: r = mkBin(ADD, a[0], a[1]); o = mkBin(ULT, r, a[0]); break;
        case Intrinsic::usub_with_overflow: r = mkBin(SUB, a[0], a[1]); o = mkBin(ULT, a[0], a[1]); break;
        case Intrinsic::umul_with_overflow: r = mkBin(MUL, a[0], a[1]);
            if (!a[0].e && !a[1].e) o = Val(a[1].c && a[0].c > maskw(w) / a[1].c, 1);
            else if (w <= 32) o = mkNot(mkEq(mkBin(LSHR, mkBin(MUL, mkZext(a[0], 64), mkZext(a[1], 64)), Val(w, 64)), Val(0, 64)));
            else o = mkBin(AND, mkNot(mkEq(a[1], Val(0, w))), mkBin(ULT, mkBin(UDIV, Val(~0ull, w), a[1]), a[0])); break;
        default:
            if (w > 32 && (a[0].e || a[1].e)) { incompl(s, "signed overflow intrinsic"); return false; }
            { Op op = id == Intrinsic::sadd_with_overflow ? ADD : id == Intrinsic::ssub_with_overflow ? SUB : MUL; r = mkBin(op, a[0], a[1]);
              if (w <= 32) o = mkNot(mkEq(mkSext(r, 64), mkBin(op, mkSext(a[0], 64), mkSext(a[1], 64))));
              else { i64 z; bool v = op == ADD ? __builtin_add_overflow((i64)a[0].c, (i64)a[1].c, &z) : op == SUB ? __builtin_sub_overflow((i64)a[0].c, (i64)a[1].c, &z) : __builtin_mul_overflow((i64)a[0].c, (i64)a[1].c, &z); o = Val(v, 1); } }
        }
        s.top().r[in.dst] = r; s.top().r[in.dst + 1] = o; return true; }
    case B_FSH: {
        if (!concretize(s, a[2], n, "a shift")) return false; unsigned w = a[0].w; n %= w;
        if (callee->F->getIntrinsicID() == Intrinsic::fshl) s.top().r[in.dst] = n ? mkBin(OR, mkBin(SHL, a[0], Val(n, w)), mkBin(LSHR, a[1], Val(w - n, w))) : a[0];
        else s.top().r[in.dst] = n ? mkBin(OR, mkBin(SHL, a[0], Val(w - n, w)), mkBin(LSHR, a[1], Val(n, w))) : a[1];
        return true; }
    case B_CONC: if (!concretize(s, a[0], n, "a value")) return false; s.top().r[in.dst] = Val(n, 64); return true;
    case B_ISSYM: ret(Val(a[0].e != nullptr, 32)); return true;
    case B_PRINT: fprintf(stderr, "[msym] %s %s%lld\n", rdStr(s, a[0].c).c_str(), a[1].e ? "sym e.g. " : "", (long long)evalVal(a[1], s.m)); return true;
    case B_SIZE: { u64 id; u32 off; if (a[0].e || badAddr(s, a[0].c, 0, false, id, off)) ret(Val(0, 64)); else ret(Val(s.mem.get(id)->size - off, 64)); return true; }
    case B_VALID: { u64 id; u32 off; ret(Val(!a[0].e && !a[1].e && !badAddr(s, a[0].c, a[1].c, false, id, off), 32)); return true; }
    case B_INCOMPLETE: incompl(s, rdStr(s, a[0].c)); return false;
    default: incompl(s, "unmodelled function " + callee->F->getName().str()); return false;
    }
}
static void popAllocas(State &s, Frame &f)
{ for (u64 id : f.allocas) { Obj *o = s.mem.wr(id); o->alive = false; o->c.clear(); o->c.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit(); } }

static void run(State &s)
{
    u64 cnt = 0;
    while (!s.done) {
        if ((++cnt & 4095) == 0 && out_of_time()) { incompl(s, "time limit"); stop_all = true; return; }
        Frame &f = s.top();
        Inst &in = f.f->bb[f.bb].in[f.pc];
        st.insts++;
        if (++s.steps > step_limit) { report(s, "hang", "path exceeds the step limit"); s.done = true; return; }
        switch (in.op) {
        case I_BIN: {
            Val a = getv(s, f, in.ops[0]), b = getv(s, f, in.ops[1]); Op op = (Op)in.sub;
            if (op >= UDIV && op <= SREM) {
                Val z = mkEq(b, Val(0, b.w)); Assign m2; int r = mayBe(s, z, m2);
                if (r) { report(s, "div", "division by zero", &m2); Assign m3; if (mayBe(s, mkNot(z), m3) != 1) { s.done = true; return; } addc(s, mkNot(z)); s.m = m3; }
            }
            if (op >= SHL && op <= ASHR && (b.e || b.c >= b.w)) {
                Val z = mkBin(ULE, Val(b.w, b.w), b); Assign m2; int r = mayBe(s, z, m2);
                if (r) { // undefined in C; x86 masks the count
                    incomplete["note: shift count out of range at " + locOf(in.I)]++; b = mkBin(AND, b, Val(b.w - 1, b.w)); }
            }
            f.r[in.dst] = mkBin(op, a, b); f.pc++; break; }
        case I_ICMP: {
            Val a = getv(s, f, in.ops[0]), b = getv(s, f, in.ops[1]);
            Val r = mkBin((Op)in.sub, a, b); f.r[in.dst] = in.neg ? mkNot(r) : r; f.pc++; break; }
        case I_LOAD: {
            unsigned n = (in.w + 7) / 8; Val r;
            if (!load(s, getv(s, f, in.ops[0]), n, in.isptr, r)) break;
            if (in.w != n * 8) r = mkTrunc(r, in.w);
            Frame &t = s.top(); t.r[in.dst] = r; t.pc++; break; }
        case I_STORE: {
            unsigned n = (in.w + 7) / 8; Val v = getv(s, f, in.ops[0]);
            if (in.w != n * 8) v = mkZext(v, n * 8);
            if (!store(s, getv(s, f, in.ops[1]), n, v)) break;
            s.top().pc++; break; }
        case I_GEP: {
            Val p = getv(s, f, in.ops[0]);
            p = mkBin(ADD, p, Val(in.off, 64));
            for (size_t i = 0; i < in.aux.size(); i++) p = mkBin(ADD, p, mkBin(MUL, mkSext(getv(s, f, in.ops[i + 1]), 64), Val(in.aux[i], 64)));
            f.r[in.dst] = p; f.pc++; break; }
        case I_CAST: {
            Val a = getv(s, f, in.ops[0]);
            f.r[in.dst] = in.w == a.w ? a : in.w < a.w ? mkTrunc(a, in.w) : in.sub ? mkSext(a, in.w) : mkZext(a, in.w);
            f.pc++; break; }
        case I_SELECT: {
            Val c = getv(s, f, in.ops[0]);
            for (u32 k = 0; k < in.ws.size(); k++) {
                Opnd x = in.ops[1].leaf(k), y = in.ops[2].leaf(k);
                if (!c.e) f.r[in.dst + k] = getv(s, f, c.c ? x : y);
                else f.r[in.dst + k] = mkIte(c, getv(s, f, x), getv(s, f, y));
            }
            f.pc++; break; }
        case I_BR: jump(s, f, in.aux[0]); break;
        case I_CBR: { Val c = getv(s, f, in.ops[0]); branch2(s, f, c, in.aux[0], in.aux[1]); break; }
        case I_SWITCH: {
            Val c = getv(s, f, in.ops[0]);
            if (!c.e) {
                u32 to = in.aux[0]; for (size_t i = 1; i + 1 < in.aux.size(); i += 2) if (in.aux[i] == c.c) { to = in.aux[i + 1]; break; }
                jump(s, f, to); break;
            }
            checkUninit(s, c, "switch depends on uninitialised memory");
            // one successor per distinct target
            std::map<u32, Val> tgt; Val none(1, 1);
            for (size_t i = 1; i + 1 < in.aux.size(); i += 2) {
                Val e = mkEq(c, Val(in.aux[i], c.w)); u32 t = in.aux[i + 1];
                tgt[t] = tgt.count(t) ? mkBin(OR, tgt[t], e) : e; none = mkBin(AND, none, mkNot(e));
            }
            tgt[in.aux[0]] = tgt.count(in.aux[0]) ? mkBin(OR, tgt[in.aux[0]], none) : none;
            SP first;
            for (auto &kv : tgt) {
                Assign m2; int r = mayBe(s, kv.second, m2);
                if (r < 0) incomplete["solver unknown at " + locOf(in.I)]++;
                if (r != 1) continue;
                SP o = clone(s); o->m = m2; addc(*o, kv.second); Frame &of = o->top(); jump(*o, of, kv.first);
                if (!first) first = std::move(o); else work.push_back(std::move(o));
            }
            if (!first) { incompl(s, "no feasible switch target"); return; }
            s = std::move(*first); break; }
        case I_RET: {
            std::vector<Val> rv;
            for (u32 k = 0; k < in.ws.size(); k++) { Opnd x = in.ops[0].leaf(k); rv.push_back(getv(s, f, x)); }
            popAllocas(s, f);
            u32 ret = f.ret;
            s.fr.pop_back();
            if (s.fr.empty()) { s.done = true; st.paths++; return; }
            Frame &t = s.top();
            for (size_t k = 0; k < rv.size(); k++) if (ret + k < t.r.size()) t.r[ret + k] = rv[k];
            t.pc++; // past the call
            break; }
        case I_ALLOCA: {
            u64 n; if (!concretize(s, mkZext(getv(s, f, in.ops[0]), 64), n, "a stack size")) break;
            n *= in.off; if (n > MAXOBJ) { report(s, "stack", "huge stack allocation"); s.done = true; return; }
            auto o = newObj(n, STACK, "", true); u64 id = s.mem.add(o);
            Frame &t = s.top(); t.allocas.push_back(id); t.r[in.dst] = Val(addrOf(id), 64); t.pc++; break; }
        case I_UNREACH: report(s, "abort", "unreachable code reached"); s.done = true; return;
        case I_FREEZE: if (in.builtin != 999) f.r[in.dst] = getv(s, f, in.ops[0]); f.pc++; break;
        case I_EXTRACTV: { Opnd x = in.ops[0]; for (u32 k = 0; k < in.ws.size(); k++) { Opnd y = x.leaf(in.off + k); f.r[in.dst + k] = getv(s, f, y); } f.pc++; break; }
        case I_INSERTV: {
            for (u32 k = 0; k < in.n; k++) { Opnd y = in.ops[0].leaf(k); Val v = y.k ? (y.agg ? y.v : Val(0, in.ws[k])) : f.r[y.slot]; f.r[in.dst + k] = v; }
            for (u32 k = in.n; k < in.ws.size(); k++) { Opnd y = in.ops[1].leaf(k - in.n); f.r[in.dst + in.off + k - in.n] = getv(s, f, y); }
            f.pc++; break; }
        case I_FBIN: {
            Val a = getv(s, f, in.ops[0]), b = getv(s, f, in.ops[1]); if (a.e || b.e) { incompl(s, "symbolic floating point"); return; }
            double x = dbl(a.c, in.w), y = dbl(b.c, in.w), z = in.n == Instruction::FAdd ? x + y : in.n == Instruction::FSub ? x - y : in.n == Instruction::FMul ? x * y : x / y;
            f.r[in.dst] = Val(undbl(z, in.w), in.w); f.pc++; break; }
        case I_FCMP: {
            Val a = getv(s, f, in.ops[0]), b = getv(s, f, in.ops[1]); if (a.e || b.e) { incompl(s, "symbolic floating point"); return; }
            double x = dbl(a.c, a.w), y = dbl(b.c, b.w); bool r = false;
            switch (in.n & 7) { case 1: r = x == y; break; case 2: r = x > y; break; case 3: r = x >= y; break; case 4: r = x < y; break; case 5: r = x <= y; break; case 6: r = x != y; break; default: r = true; }
            f.r[in.dst] = Val(r, 1); f.pc++; break; }
        case I_FCAST: {
            Val a = getv(s, f, in.ops[0]); if (a.e) { incompl(s, "symbolic floating point"); return; }
            u64 r = 0;
            switch (in.n) {
            case Instruction::SIToFP: r = undbl((double)sx(a.c, a.w), in.w); break; case Instruction::UIToFP: r = undbl((double)a.c, in.w); break;
            case Instruction::FPToSI: r = (u64)(i64)dbl(a.c, a.w); break; case Instruction::FPToUI: r = (u64)dbl(a.c, a.w); break;
            default: r = undbl(dbl(a.c, a.w), in.w); }
            f.r[in.dst] = Val(r, in.w); f.pc++; break; }
        case I_CALL: {
            Func *cal = in.callee; u32 na = in.n;
            std::vector<Val> a; a.reserve(na + 1); std::vector<u8> vw;
            for (u32 i = 0; i < na; i++) a.push_back(getv(s, f, in.ops[i]));
            if (!cal) {
                u64 p; if (!concretize(s, getv(s, f, in.ops[na]), p, "a function pointer")) break;
                auto it = (p % WIN == BASE) ? funcById.find(p / WIN) : funcById.end();
                if (it == funcById.end()) { report(s, "memory", p < 65536 ? "call through a null pointer" : "call through a bad function pointer"); s.done = true; return; }
                cal = it->second;
            }
            int bi = cal->builtin;
            if (bi >= 0 || !cal->body) { if (builtin(s, f, in, a, bi, cal)) s.top().pc++; break; }
            // byval struct arguments are copied
            bool ok = true;
            for (u32 i = 0; i < na && i < cal->F->arg_size(); i++) if (cal->F->hasParamAttribute(i, Attribute::ByVal)) {
                u64 p; if (!concretize(s, a[i], p, "byval")) { ok = false; break; }
                u64 sz = DL->getTypeAllocSize(cal->F->getParamByValType(i)); u64 id; u32 off;
                const char *e = badAddr(s, p, sz, false, id, off); if (e) { report(s, "memory", std::string(e) + " (by-value argument)"); s.done = true; ok = false; break; }
                auto o = newObj(sz, STACK, "byval", false); u64 nid = s.mem.add(o);
                for (u32 k = 0; k < sz; k++) { Val b = rdByte(s, id, off + k); wrByte(s.mem.wr(nid), k, b); }
                a[i] = Val(addrOf(nid), 64);
            }
            if (!ok) break;
            // the pc stays on the call; I_RET advances it
            enter(s, cal, a, vw, in.dst); break; }
        default: { std::string t; raw_string_ostream os(t); in.I->print(os); incompl(s, "unsupported instruction " + os.str()); return; }
        }
    }
}

// ---------------------------------------------------------------- driver
static std::string js(const std::string &x) { std::string r = "\""; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void dump(FILE *o)
{
    fprintf(o, "{\"paths\":%llu,\"ended\":%llu,\"instructions\":%llu,\"forks\":%llu,\"queries\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"slowest_ms\":%llu,\"unknown\":%llu,\"wall\":%.2f,",
            (unsigned long long)st.paths, (unsigned long long)st.ended, (unsigned long long)st.insts, (unsigned long long)st.forks, (unsigned long long)solver.queries, (unsigned long long)solver.cached, solver.secs, (unsigned long long)solver.slowest_ms, (unsigned long long)solver.unknowns, now() - t_start);
    auto mp = [&](const char *n, std::map<std::string, u64> &m) { fprintf(o, "\"%s\":{", n); bool c = false; for (auto &k : m) { fprintf(o, "%s%s:%llu", c ? "," : "", js(k.first).c_str(), (unsigned long long)k.second); c = true; } fprintf(o, "},"); };
    mp("incomplete", incomplete); mp("witnesses", wits); mp("checks", wdecl);
    std::map<std::string, u64> exp;
    for (auto &kv : funcs) if (kv.second->executed) for (auto &B : *kv.first) for (auto &I : B) if (auto *C = dyn_cast<CallInst>(&I)) if (C->getCalledFunction() && C->getCalledFunction()->getName() == "msym_witness")
        if (auto *G = dyn_cast<GlobalVariable>(C->getArgOperand(0)->stripPointerCasts())) if (G->hasInitializer()) if (auto *D = dyn_cast<ConstantDataSequential>(G->getInitializer())) exp[D->isCString() ? D->getAsCString().str() : ""]++;
    mp("expected", exp);
    fprintf(o, "\"functions\":["); bool c = false; for (auto &k : fnExec) { fprintf(o, "%s%s", c ? "," : "", js(k).c_str()); c = true; }
    fprintf(o, "],\"errors\":["); c = false;
    for (auto &e : errL) {
        fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"inputs\":[", c ? "," : "", js(e.kind).c_str(), js(e.msg).c_str(), js(e.loc).c_str(), js(e.stack).c_str());
        for (size_t i = 0; i < e.in.size(); i++) fprintf(o, "%s%llu", i ? "," : "", (unsigned long long)e.in[i]);
        fprintf(o, "]}"); c = true;
    }
    fprintf(o, "]}\n"); fflush(o);
}
static void explore(size_t limit)   // depth first; stops when `limit` states are pending
{
    while (!work.empty() && !stop_all) {
        if (limit && work.size() >= limit) return;
        SP s;
        if (limit) { s = std::move(work.front()); work.pop_front(); } else { s = std::move(work.back()); work.pop_back(); }
        run(*s);
    }
    if (stop_all && !work.empty()) { if (errL.size() >= max_errors) incomplete["stopped after " + std::to_string(errL.size()) + " errors"]++; else incomplete["time limit"]++; }
}
int main(int ac, char **av)
{
    t_start = now();
    first_err = (double *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (first_err == MAP_FAILED) first_err = nullptr;
    std::string out = "-"; unsigned workers = 1;
    for (int i = 3; i < ac; i++) {
        std::string x = av[i];
        if (x == "--workers") workers = atoi(av[++i]); else if (x == "--time") time_limit = atof(av[++i]); else if (x == "--steps") step_limit = atoll(av[++i]);
        else if (x == "--max-errors") max_errors = atoi(av[++i]); else if (x == "--enum") enum_limit = atoll(av[++i]); else if (x == "-o") out = av[++i];
        else if (x == "--no-uninit") opt_uninit = false; else if (x == "--solver-ms") solver.timeout_ms = atoi(av[++i]);
        else { fprintf(stderr, "bad option %s\n", x.c_str()); return 3; }
    }
    LLVMContext C; SMDiagnostic D;
    M = parseIRFile(av[1], D, C);
    if (!M) { D.print("msym", llvm::errs()); return 3; }
    for (auto &F : *M) { std::vector<Instruction *> v; for (auto &I : instructions(F)) if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) v.push_back(&I);      /* one thread */
        for (auto *I : v) if (auto *R = dyn_cast<AtomicRMWInst>(I)) lowerAtomicRMWInst(R); else lowerAtomicCmpXchgInst(cast<AtomicCmpXchgInst>(I)); }
    DL = &M->getDataLayout();
    SP s(new State());
    initGlobals(*s);
    const Function *E = M->getFunction(av[2]);
    if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", av[2]); return 3; }
    enter(*s, getFunc(E), {}, {}, 0);
    work.push_back(std::move(s));
    FILE *o = out == "-" ? stdout : fopen(out.c_str(), "w");
    if (workers > 1) {
        explore(workers * 12);
        if (!work.empty() && !stop_all) {
            // hand each pending state to a child process; the parts are written to <out>.N
            std::vector<SP> parts; while (!work.empty()) { parts.push_back(std::move(work.front())); work.pop_front(); }
            size_t n = parts.size(); unsigned live = 0; std::vector<int> rcs(n, 0); std::map<pid_t, size_t> who;
            std::vector<size_t> failed;
            auto reap = [&]() { int stt; pid_t p = wait(&stt); if (p > 0) { live--; if (!WIFEXITED(stt) || WEXITSTATUS(stt)) failed.push_back(who[p]); } };
            fflush(o);
            for (size_t i = 0; i < n; i++) {
                while (live >= workers) reap();
                pid_t p = fork();
                if (p == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    st = Stats(); solver.queries = solver.cached = 0; solver.secs = 0; errL.clear(); incomplete.clear(); wits.clear(); wdecl.clear();
                    work.push_back(std::move(parts[i]));
                    explore(0);
                    FILE *c = fopen((out + "." + std::to_string(i)).c_str(), "w"); dump(c); fclose(c); _exit(0);
                }
                who[p] = i; live++;
            }
            while (live) reap();
            for (size_t i : failed) incomplete["worker " + std::to_string(i) + " died"]++;
            incomplete["parts"] = n;   // read by the runner
        }
    } else explore(0);
    dump(o); fclose(o);
    fflush(nullptr); _exit(0);
}
