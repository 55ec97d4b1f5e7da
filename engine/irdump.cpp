// Dumps a linked LLVM 18 module as compact JSON for the Python analyses.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> Ids;

static std::string esc(StringRef s) {
    std::string r;
    raw_string_ostream os(r);
    json::OStream j(os);
    j.value(json::fixUTF8(s));
    return os.str();
}

static std::string ty(Type *T) {
    if (T->isPointerTy()) return "p";
    if (T->isVoidTy()) return "v";
    if (T->isIntegerTy()) return "i" + std::to_string(T->getIntegerBitWidth());
    if (auto *S = dyn_cast<StructType>(T)) {
        if (S->hasName()) return S->getName().str();
        return "{}";
    }
    if (auto *A = dyn_cast<ArrayType>(T)) return "[" + std::to_string(A->getNumElements()) + "x" + ty(A->getElementType()) + "]";
    std::string r; raw_string_ostream os(r); T->print(os); return os.str();
}

static uint64_t sizeOf(Type *T) {
    if (!T->isSized()) return 0;
    return DL->getTypeAllocSize(T).getFixedValue();
}

// value encodings: ["r",id] reg, ["c",value,width], ["n"] null, ["g",name,off], ["f",name], ["u"] undef, ["x",text]
static std::string val(const Value *V) {
    if (auto *C = dyn_cast<ConstantInt>(V)) {
        SmallString<32> s;
        C->getValue().toStringUnsigned(s);
        return "[\"c\"," + std::string(s.str()) + "," + std::to_string(C->getBitWidth()) + "]";
    }
    if (isa<ConstantPointerNull>(V)) return "[\"n\"]";
    if (isa<UndefValue>(V)) return "[\"u\"]";
    if (auto *F = dyn_cast<Function>(V)) return "[\"f\"," + esc(F->getName()) + "]";
    if (auto *G = dyn_cast<GlobalVariable>(V)) return "[\"g\"," + esc(G->getName()) + ",0]";
    if (auto *C = dyn_cast<Constant>(V)) {
        if (auto *GO = dyn_cast<GEPOperator>(C)) {
            APInt off(64, 0);
            if (GO->accumulateConstantOffset(*DL, off)) {
                if (auto *G = dyn_cast<GlobalVariable>(GO->getPointerOperand()))
                    return "[\"g\"," + esc(G->getName()) + "," + std::to_string(off.getSExtValue()) + "]";
            }
        }
        if (auto *CE = dyn_cast<ConstantExpr>(C)) {
            if (CE->isCast()) {
                if (auto *CI = dyn_cast<ConstantInt>(CE->getOperand(0)))
                    if (CE->getOpcode() == Instruction::IntToPtr) {
                        SmallString<32> s; CI->getValue().toStringUnsigned(s);
                        return "[\"c\"," + std::string(s.str()) + ",64]";
                    }
                return val(CE->getOperand(0));
            }
        }
        if (isa<ConstantAggregateZero>(C)) return "[\"z\"]";
        std::string r; raw_string_ostream os(r); C->print(os); os.flush();
        return "[\"x\"," + esc(r) + "]";
    }
    auto it = Ids.find(V);
    if (it != Ids.end()) return "[\"r\"," + std::to_string(it->second) + "]";
    return "[\"x\",\"md\"]";
}

static std::string diTypeName(const DIType *T, int depth = 0) {
    if (!T) return "void";
    if (depth > 6) return "...";
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
        case dwarf::DW_TAG_typedef: return D->getName().str();
        case dwarf::DW_TAG_pointer_type: return diTypeName(D->getBaseType(), depth + 1) + "*";
        case dwarf::DW_TAG_const_type: return "const " + diTypeName(D->getBaseType(), depth + 1);
        default: return diTypeName(D->getBaseType(), depth + 1);
        }
    }
    if (auto *B = dyn_cast<DIBasicType>(T)) return B->getName().str();
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        if (C->getTag() == dwarf::DW_TAG_array_type) return diTypeName(C->getBaseType(), depth + 1) + "[]";
        std::string n = C->getName().str();
        return n.empty() ? "anon" : n;
    }
    if (isa<DISubroutineType>(T)) return "fn";
    return "?";
}

int main(int argc, char **argv) {
    LLVMContext Ctx;
    SMDiagnostic Err;
    auto M = parseIRFile(argv[1], Err, Ctx);
    if (!M) { Err.print(argv[0], errs()); return 2; }
    DL = &M->getDataLayout();
    raw_ostream &O = outs();
    O << "{\"structs\":{";
    bool first = true;
    for (StructType *S : M->getIdentifiedStructTypes()) {
        if (S->isOpaque() || !S->isSized()) continue;
        if (!first) O << ",";
        first = false;
        O << esc(S->getName()) << ":{\"size\":" << sizeOf(S) << ",\"offs\":[";
        const StructLayout *SL = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) {
            if (i) O << ",";
            O << "[" << SL->getElementOffset(i).getFixedValue() << "," << esc(ty(S->getElementType(i))) << "," << sizeOf(S->getElementType(i)) << "]";
        }
        O << "]}";
    }
    O << "},\n\"di\":{";
    DebugInfoFinder DIF;
    DIF.processModule(*M);
    first = true;
    std::set<std::string> seen;
    std::map<const DICompositeType *, std::string> tdName;
    std::vector<std::pair<std::string, const DICompositeType *>> comps;
    for (DIType *T : DIF.types()) {
        if (auto *D = dyn_cast<DIDerivedType>(T))
            if (D->getTag() == dwarf::DW_TAG_typedef && D->getBaseType())
                if (auto *C = dyn_cast<DICompositeType>(D->getBaseType())) comps.push_back({D->getName().str(), C});
        if (auto *C = dyn_cast<DICompositeType>(T))
            if (!C->getName().empty()) comps.push_back({C->getName().str(), C});
    }
    for (auto &pr : comps) {
        auto *C = pr.second;
        if (C->getTag() != dwarf::DW_TAG_structure_type && C->getTag() != dwarf::DW_TAG_union_type) continue;
        if (C->isForwardDecl()) continue;
        if (!seen.insert(pr.first).second) continue;
        if (!first) O << ",\n";
        first = false;
        O << esc(pr.first) << ":{\"size\":" << C->getSizeInBits() / 8 << ",\"f\":[";
        bool f2 = true;
        for (auto *E : C->getElements()) {
            auto *D = dyn_cast<DIDerivedType>(E);
            if (!D || D->getTag() != dwarf::DW_TAG_member) continue;
            if (!f2) O << ",";
            f2 = false;
            O << "[" << esc(D->getName()) << "," << D->getOffsetInBits() / 8 << "," << D->getSizeInBits() / 8 << "," << esc(diTypeName(D->getBaseType())) << "]";
        }
        O << "]}";
    }
    O << "},\n\"enums\":{";
    first = true;
    std::set<std::string> es;
    auto doEnum = [&](const DICompositeType *C, std::string tn) {
        for (auto *E : C->getElements())
            if (auto *N = dyn_cast<DIEnumerator>(E)) {
                if (!es.insert(N->getName().str()).second) continue;
                if (!first) O << ",";
                first = false;
                SmallString<32> s; N->getValue().toString(s, 10, !N->isUnsigned());
                O << esc(N->getName()) << ":[" << s.str() << "," << esc(tn) << "]";
            }
    };
    for (auto &pr : comps)
        if (pr.second->getTag() == dwarf::DW_TAG_enumeration_type) doEnum(pr.second, pr.first);
    for (DIType *T : DIF.types())
        if (auto *C = dyn_cast<DICompositeType>(T))
            if (C->getTag() == dwarf::DW_TAG_enumeration_type) doEnum(C, C->getName().str());
    O << "},\n\"globals\":{";
    first = true;
    for (GlobalVariable &G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        if (!first) O << ",\n";
        first = false;
        O << esc(G.getName()) << ":{\"size\":" << (G.getValueType()->isSized() ? sizeOf(G.getValueType()) : 0)
          << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"ty\":" << esc(ty(G.getValueType()));
        SmallVector<DIGlobalVariableExpression *, 1> gves;
        G.getDebugInfo(gves);
        if (!gves.empty()) {
            auto *V = gves[0]->getVariable();
            O << ",\"file\":" << esc(V->getFilename()) << ",\"line\":" << V->getLine() << ",\"ditype\":" << esc(diTypeName(V->getType())) << ",\"diname\":" << esc(V->getName());
            if (auto *SP = dyn_cast_or_null<DISubprogram>(V->getScope())) O << ",\"scope\":" << esc(SP->getName());
        }
        if (G.hasInitializer()) {
            const Constant *I = G.getInitializer();
            if (auto *CDS = dyn_cast<ConstantDataSequential>(I)) {
                if (CDS->isString()) O << ",\"str\":" << esc(CDS->getAsString());
            }
            if (isa<ConstantAggregateZero>(I)) O << ",\"zero\":1";
            // scalars / aggregates flattened
            O << ",\"init\":[";
            bool f3 = true;
            std::function<void(const Constant *, uint64_t)> rec = [&](const Constant *C, uint64_t off) {
                if (isa<ConstantAggregateZero>(C)) return;
                if (auto *CA = dyn_cast<ConstantArray>(C)) {
                    uint64_t es = sizeOf(CA->getType()->getElementType());
                    for (unsigned i = 0; i < CA->getNumOperands(); i++) rec(CA->getOperand(i), off + i * es);
                    return;
                }
                if (auto *CS = dyn_cast<ConstantStruct>(C)) {
                    auto *SL = DL->getStructLayout(CS->getType());
                    for (unsigned i = 0; i < CS->getNumOperands(); i++) rec(CS->getOperand(i), off + SL->getElementOffset(i).getFixedValue());
                    return;
                }
                if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
                    if (CD->isString() && CD->getNumElements() > 64) return;
                    uint64_t es = CD->getElementByteSize();
                    for (unsigned i = 0; i < CD->getNumElements(); i++) rec(CD->getElementAsConstant(i), off + i * es);
                    return;
                }
                if (!f3) O << ",";
                f3 = false;
                O << "[" << off << "," << sizeOf(C->getType()) << "," << val(C) << "]";
            };
            rec(I, 0);
            O << "]";
        }
        O << "}";
    }
    O << "},\n\"functions\":{";
    first = true;
    for (Function &F : *M) {
        if (F.isIntrinsic()) continue;
        if (!first) O << ",\n";
        first = false;
        Ids.clear();
        int n = 0;
        for (Argument &A : F.args()) Ids[&A] = n++;
        for (BasicBlock &B : F)
            for (Instruction &I : B) Ids[&I] = n++;
        std::map<const BasicBlock *, int> bid;
        int bn = 0;
        for (BasicBlock &B : F) bid[&B] = bn++;
        O << esc(F.getName()) << ":{\"decl\":" << (F.isDeclaration() ? 1 : 0) << ",\"internal\":" << (F.hasLocalLinkage() ? 1 : 0)
          << ",\"vararg\":" << (F.isVarArg() ? 1 : 0) << ",\"ret\":" << esc(ty(F.getReturnType())) << ",\"nargs\":" << F.arg_size();
        DISubprogram *SP = F.getSubprogram();
        if (SP) {
            O << ",\"file\":" << esc(SP->getFilename()) << ",\"line\":" << SP->getLine();
            auto TA = SP->getType()->getTypeArray();
            O << ",\"dity\":[";
            for (unsigned i = 0; i < TA.size(); i++) {
                if (i) O << ",";
                O << esc(diTypeName(TA[i]));
            }
            O << "]";
            std::vector<std::string> names(F.arg_size());
            for (auto *RN : SP->getRetainedNodes())
                if (auto *LV = dyn_cast<DILocalVariable>(RN))
                    if (LV->getArg() && LV->getArg() <= names.size()) names[LV->getArg() - 1] = LV->getName().str();
            // at -O0 retainedNodes is empty: find dbg.declare/value
            for (BasicBlock &B : F)
                for (Instruction &I : B)
                    if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
                        auto *LV = DV->getVariable();
                        if (LV->getArg() && LV->getArg() <= names.size()) names[LV->getArg() - 1] = LV->getName().str();
                    }
            O << ",\"argnames\":[";
            for (unsigned i = 0; i < names.size(); i++) { if (i) O << ","; O << esc(names[i]); }
            O << "]";
        }
        if (!F.isDeclaration()) {
            // variable names for registers/allocas
            std::map<int, std::string> vn, vt;
            for (BasicBlock &B : F)
                for (Instruction &I : B)
                    if (auto *DV = dyn_cast<DbgVariableIntrinsic>(&I)) {
                        for (Value *V : DV->location_ops()) {
                            auto it = Ids.find(V);
                            if (it != Ids.end()) { vn[it->second] = DV->getVariable()->getName().str(); vt[it->second] = diTypeName(DV->getVariable()->getType()); }
                        }
                    }
            O << ",\"vn\":{";
            bool fv = true;
            for (auto &k : vn) { if (!fv) O << ","; fv = false; O << "\"" << k.first << "\":[" << esc(k.second) << "," << esc(vt[k.first]) << "]"; }
            O << "},\"blocks\":[";
            bool fb = true;
            for (BasicBlock &B : F) {
                if (!fb) O << ",\n";
                fb = false;
                O << "[";
                bool fi = true;
                for (Instruction &I : B) {
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    unsigned line = 0, col = 0;
                    std::string ifile;
                    if (const DebugLoc &D = I.getDebugLoc()) { line = D.getLine(); col = D.getCol(); }
                    std::string body;
                    raw_string_ostream S(body);
                    int id = Ids[&I];
                    if (auto *A = dyn_cast<AllocaInst>(&I)) {
                        S << "\"alloca\"," << id << "," << sizeOf(A->getAllocatedType()) << "," << esc(ty(A->getAllocatedType())) << "," << val(A->getArraySize());
                    } else if (auto *L = dyn_cast<LoadInst>(&I)) {
                        S << "\"load\"," << id << "," << val(L->getPointerOperand()) << "," << DL->getTypeStoreSize(L->getType()).getFixedValue() << "," << esc(ty(L->getType())) << "," << (L->isAtomic() || L->isVolatile() ? 1 : 0);
                    } else if (auto *St = dyn_cast<StoreInst>(&I)) {
                        S << "\"store\"," << val(St->getValueOperand()) << "," << val(St->getPointerOperand()) << "," << DL->getTypeStoreSize(St->getValueOperand()->getType()).getFixedValue() << "," << (St->isAtomic() || St->isVolatile() ? 1 : 0);
                    } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                        MapVector<Value *, APInt> vo;
                        APInt co(64, 0);
                        bool ok = cast<GEPOperator>(G)->collectOffset(*DL, 64, vo, co);
                        S << "\"gep\"," << id << "," << val(G->getPointerOperand()) << "," << (ok ? co.getSExtValue() : -1) << ",[";
                        bool f4 = true;
                        for (auto &kv : vo) { if (!f4) S << ","; f4 = false; S << "[" << val(kv.first) << "," << kv.second.getSExtValue() << "]"; }
                        S << "]," << esc(ty(G->getSourceElementType())) << "," << G->getNumIndices();
                    } else if (auto *C = dyn_cast<ICmpInst>(&I)) {
                        S << "\"icmp\"," << id << "," << esc(CmpInst::getPredicateName(C->getPredicate())) << "," << val(C->getOperand(0)) << "," << val(C->getOperand(1));
                    } else if (auto *Br = dyn_cast<BranchInst>(&I)) {
                        if (Br->isConditional())
                            S << "\"br\"," << val(Br->getCondition()) << "," << bid[Br->getSuccessor(0)] << "," << bid[Br->getSuccessor(1)];
                        else
                            S << "\"jmp\"," << bid[Br->getSuccessor(0)];
                    } else if (auto *Sw = dyn_cast<SwitchInst>(&I)) {
                        S << "\"switch\"," << val(Sw->getCondition()) << "," << bid[Sw->getDefaultDest()] << ",[";
                        bool f5 = true;
                        for (auto &c : Sw->cases()) {
                            if (!f5) S << ","; f5 = false;
                            SmallString<32> s; c.getCaseValue()->getValue().toStringUnsigned(s);
                            S << "[" << s.str() << "," << bid[c.getCaseSuccessor()] << "]";
                        }
                        S << "]";
                    } else if (auto *P = dyn_cast<PHINode>(&I)) {
                        S << "\"phi\"," << id << "," << esc(ty(P->getType())) << ",[";
                        for (unsigned i = 0; i < P->getNumIncomingValues(); i++) {
                            if (i) S << ",";
                            S << "[" << val(P->getIncomingValue(i)) << "," << bid[P->getIncomingBlock(i)] << "]";
                        }
                        S << "]";
                    } else if (auto *Se = dyn_cast<SelectInst>(&I)) {
                        S << "\"select\"," << id << "," << val(Se->getCondition()) << "," << val(Se->getTrueValue()) << "," << val(Se->getFalseValue());
                    } else if (auto *CB = dyn_cast<CallBase>(&I)) {
                        S << "\"call\"," << id << ",";
                        if (CB->isInlineAsm()) S << "[\"x\",\"asm\"]";
                        else {
                            const Value *CV = CB->getCalledOperand()->stripPointerCasts();
                            if (auto *CF = dyn_cast<Function>(CV)) S << "[\"f\"," << esc(CF->getName()) << "]";
                            else S << val(CV);
                        }
                        S << ",[";
                        for (unsigned i = 0; i < CB->arg_size(); i++) { if (i) S << ","; S << val(CB->getArgOperand(i)); }
                        S << "]," << esc(ty(CB->getType()));
                    } else if (auto *R = dyn_cast<ReturnInst>(&I)) {
                        S << "\"ret\"," << (R->getReturnValue() ? val(R->getReturnValue()) : "null");
                    } else if (isa<UnreachableInst>(I)) {
                        S << "\"unreachable\"";
                    } else if (auto *Ca = dyn_cast<CastInst>(&I)) {
                        unsigned sw = Ca->getSrcTy()->isIntegerTy() ? Ca->getSrcTy()->getIntegerBitWidth() : 64;
                        unsigned dw = Ca->getDestTy()->isIntegerTy() ? Ca->getDestTy()->getIntegerBitWidth() : 64;
                        S << "\"cast\"," << id << "," << esc(Ca->getOpcodeName()) << "," << val(Ca->getOperand(0)) << "," << sw << "," << dw;
                    } else if (auto *BO = dyn_cast<BinaryOperator>(&I)) {
                        S << "\"bin\"," << id << "," << esc(BO->getOpcodeName()) << "," << val(BO->getOperand(0)) << "," << val(BO->getOperand(1)) << "," << (BO->getType()->isIntegerTy() ? BO->getType()->getIntegerBitWidth() : 0);
                    } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                        S << "\"extractvalue\"," << id << "," << val(EV->getAggregateOperand()) << "," << EV->getIndices()[0];
                    } else {
                        S << "\"other\"," << id << "," << esc(I.getOpcodeName()) << ",[";
                        for (unsigned i = 0; i < I.getNumOperands(); i++) { if (i) S << ","; S << val(I.getOperand(i)); }
                        S << "]";
                    }
                    if (!fi) O << ",\n ";
                    fi = false;
                    O << "[" << line << "," << S.str() << "]";
                }
                O << "]";
            }
            O << "]";
        }
        O << "}";
    }
    O << "}}\n";
    return 0;
}
