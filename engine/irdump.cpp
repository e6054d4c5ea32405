// irdump: links LLVM bitcode, inlines every function that is not on the "keep" list,
// promotes scalars to SSA, and writes the resolved program as JSON lines for the Python rules.
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Analysis/LoopAnalysisManager.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Utils/Local.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <fstream>
#include <map>
#include <set>
#include <string>
using namespace llvm;
namespace J = llvm::json;

static std::map<std::string, int> FileIdx;
static std::vector<std::string>   Files;
static int fileId(StringRef dir, StringRef f)
{
    std::string s = f.str();
    if (!s.empty() && s[0] != '/' && !dir.empty())
        s = dir.str() + "/" + s;
    auto it = FileIdx.find(s);
    if (it != FileIdx.end())
        return it->second;
    int n      = Files.size();
    FileIdx[s] = n;
    Files.push_back(s);
    return n;
}

static std::map<std::string, const DICompositeType *> DIStructs; // by display name
static std::string stripName(StringRef n)
{
    if (n.starts_with("struct."))
        n = n.drop_front(7);
    else if (n.starts_with("union."))
        n = n.drop_front(6);
    // strip .N
    size_t p = n.rfind('.');
    if (p != StringRef::npos) {
        bool dig = p + 1 < n.size();
        for (size_t i = p + 1; i < n.size(); i++)
            if (!isdigit(n[i]))
                dig = false;
        if (dig)
            n = n.substr(0, p);
    }
    return n.str();
}
static std::map<const DICompositeType *, std::string> AnonName;

static std::string diName(const DICompositeType *C)
{
    if (!C->getName().empty())
        return C->getName().str();
    auto it = AnonName.find(C);
    if (it != AnonName.end())
        return it->second;
    return "anon@" + std::to_string(C->getLine());
}
static std::string tyStr(const DIType *T, int depth = 0)
{
    if (!T)
        return "void";
    if (auto *B = dyn_cast<DIBasicType>(T)) {
        uint64_t sz = B->getSizeInBits();
        switch (B->getEncoding()) {
            case dwarf::DW_ATE_float:
                return "f" + std::to_string(sz);
            case dwarf::DW_ATE_boolean:
                return "b" + std::to_string(sz);
            case dwarf::DW_ATE_unsigned:
            case dwarf::DW_ATE_unsigned_char:
                return "u" + std::to_string(sz);
            default:
                return "i" + std::to_string(sz);
        }
    }
    if (auto *D = dyn_cast<DIDerivedType>(T)) {
        switch (D->getTag()) {
            case dwarf::DW_TAG_pointer_type:
                if (depth > 6)
                    return "?*";
                return tyStr(D->getBaseType(), depth + 1) + "*";
            default:
                return tyStr(D->getBaseType(), depth);
        }
    }
    if (auto *C = dyn_cast<DICompositeType>(T)) {
        switch (C->getTag()) {
            case dwarf::DW_TAG_array_type: {
                std::string s = tyStr(C->getBaseType(), depth + 1);
                for (auto *e : C->getElements())
                    if (auto *R = dyn_cast<DISubrange>(e)) {
                        if (auto *cnt = dyn_cast_if_present<ConstantInt *>(R->getCount()))
                            s += "[" + std::to_string(cnt->getSExtValue()) + "]";
                        else
                            s += "[]";
                    }
                return s;
            }
            case dwarf::DW_TAG_enumeration_type:
                return "enum " + C->getName().str();
            case dwarf::DW_TAG_union_type:
                return "union " + diName(C);
            default:
                return "struct " + diName(C);
        }
    }
    if (isa<DISubroutineType>(T))
        return "fn";
    return "?";
}

struct FnDump {
    const Module     &M;
    const DataLayout &DL;
    std::map<const Value *, int>      id;
    std::map<const BasicBlock *, int> bid;
    std::map<const Function *, std::string> &names;
    FnDump(const Module &m, std::map<const Function *, std::string> &n) : M(m), DL(m.getDataLayout()), names(n)
    {
    }
    std::string gname(const GlobalValue *g)
    {
        if (auto *F = dyn_cast<Function>(g)) {
            auto it = names.find(F);
            if (it != names.end())
                return it->second;
        }
        return symName(g);
    }
    static std::string symName(const GlobalValue *g);
    static std::string ty(Type *T)
    {
        if (T->isPointerTy())
            return "p";
        if (auto *S = dyn_cast<StructType>(T))
            return S->hasName() ? "S:" + stripName(S->getName()) : "S:?";
        std::string              s;
        raw_string_ostream       o(s);
        T->print(o);
        return o.str();
    }
    J::Value ref(const Value *v)
    {
        if (auto *c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() <= 64)
                return J::Array{"c", c->getBitWidth() == 1 ? (int64_t)c->getZExtValue() : c->getSExtValue(),
                                (int64_t)c->getBitWidth()};
            return J::Array{"u"};
        }
        if (isa<ConstantPointerNull>(v))
            return J::Array{"n"};
        if (auto *dv = dyn_cast<ConstantDataVector>(v)) {
            J::Array a{"V"};
            for (char b : dv->getRawDataValues())
                a.push_back((int64_t)(unsigned char)b);
            return a;
        }
        if (isa<UndefValue>(v))
            return J::Array{"u"};
        if (auto *f = dyn_cast<ConstantFP>(v)) {
            SmallString<32> s;
            f->getValueAPF().toString(s);
            return J::Array{"f", s.str().str()};
        }
        if (auto *g = dyn_cast<GlobalValue>(v))
            return J::Array{"g", gname(g)};
        if (auto *a = dyn_cast<Argument>(v))
            return J::Array{"a", (int64_t)a->getArgNo()};
        if (auto *ce = dyn_cast<ConstantExpr>(v)) {
            if (auto *g = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (g->accumulateConstantOffset(DL, off))
                    return J::Array{"ge", ref(g->getPointerOperand()), off.getSExtValue(), path(g)};
            }
            J::Array a{"ce", ce->getOpcodeName()};
            for (auto &o : ce->operands())
                a.push_back(ref(o.get()));
            return a;
        }
        auto it = id.find(v);
        if (it != id.end())
            return (int64_t)it->second;
        if (auto *c = dyn_cast<Constant>(v)) {
            if (c->isNullValue())
                return J::Array{"z"};
            return J::Array{"k"};
        }
        if (auto *mv = dyn_cast<MetadataAsValue>(v)) {
            (void)mv;
            return J::Array{"m"};
        }
        return J::Array{"?"};
    }
    J::Array path(const GEPOperator *g)
    {
        J::Array p;
        bool     first = true;
        for (gep_type_iterator i = gep_type_begin(g), e = gep_type_end(g); i != e; ++i) {
            if (StructType *S = i.getStructTypeOrNull()) {
                int64_t     ix  = cast<ConstantInt>(i.getOperand())->getSExtValue();
                uint64_t    off = DL.getStructLayout(S)->getElementOffset(ix);
                std::string n   = S->hasName() ? stripName(S->getName()) : "?";
                p.push_back(J::Array{"S", n, ix, (int64_t)off});
            }
            else {
                p.push_back(J::Array{"A", first ? 1 : 0, ref(i.getOperand()), ty(i.getIndexedType())});
            }
            first = false;
        }
        return p;
    }
    void dump(Function &F, raw_ostream &os)
    {
        id.clear();
        bid.clear();
        int n = 0, b = 0;
        for (auto &BB : F) {
            bid[&BB] = b++;
            for (auto &I : BB)
                id[&I] = n++;
        }
        J::Object o;
        o["k"]    = "fn";
        o["name"] = names[&F];
        auto *SP  = F.getSubprogram();
        if (SP) {
            o["file"] = fileId(SP->getDirectory(), SP->getFilename());
            o["line"] = (int64_t)SP->getLine();
        }
        o["static"] = F.hasLocalLinkage();
        J::Array args;
        std::map<int, std::pair<std::string, std::string>> an;
        if (SP) {
            for (auto *N : SP->getRetainedNodes())
                if (auto *V = dyn_cast<DILocalVariable>(N))
                    if (V->getArg())
                        an[V->getArg() - 1] = {V->getName().str(), tyStr(V->getType())};
            if (auto *ST = SP->getType()) {
                auto ta = ST->getTypeArray();
                if (ta.size() > 0)
                    o["ret"] = tyStr(ta[0]);
                for (unsigned i = 1; i < ta.size(); i++)
                    if (!an.count(i - 1))
                        an[i - 1] = {"", tyStr(ta[i])};
            }
        }
        J::Array dbg;
        for (auto &BB : F)
            for (auto &I : BB)
                if (auto *D = dyn_cast<DbgVariableIntrinsic>(&I)) {
                    auto *V = D->getVariable();
                    bool  inl = D->getDebugLoc() && D->getDebugLoc()->getInlinedAt();
                    if (V->getArg() && !inl)
                        an[V->getArg() - 1] = {V->getName().str(), tyStr(V->getType())};
                    if (D->getNumVariableLocationOps() == 1) {
                        Value *val = D->getVariableLocationOp(0);
                        if (val)
                            dbg.push_back(J::Array{ref(val), V->getName().str(), tyStr(V->getType()),
                                                   isa<DbgDeclareInst>(&I) ? 1 : 0,
                                                   (int64_t)D->getExpression()->getNumElements(), inl});
                    }
                }
        for (auto &A : F.args()) {
            int i = A.getArgNo();
            args.push_back(J::Array{an[i].first, an[i].second, ty(A.getType())});
        }
        o["args"] = std::move(args);
        o["dbg"]  = std::move(dbg);
        J::Array blocks;
        for (auto &BB : F) {
            J::Array ins;
            for (auto &I : BB) {
                if (isa<DbgInfoIntrinsic>(&I))
                    continue;
                if (auto *II = dyn_cast<IntrinsicInst>(&I))
                    if (II->isLifetimeStartOrEnd())
                        continue;
                J::Object j;
                j["i"]  = (int64_t)id[&I];
                j["op"] = I.getOpcodeName();
                if (!I.getType()->isVoidTy())
                    j["ty"] = ty(I.getType());
                if (auto &L = I.getDebugLoc()) {
                    auto *sc = cast<DIScope>(L.getScope());
                    j["l"]   = J::Array{fileId(sc->getDirectory(), sc->getFilename()), (int64_t)L.getLine()};
                    if (auto *ia = L.getInlinedAt()) {
                        j["in"] = L->getScope()->getSubprogram()->getName().str();
                        J::Array chain;
                        for (const DILocation *x = ia; x; x = x->getInlinedAt())
                            chain.push_back((int64_t)x->getLine());
                        j["ia"] = std::move(chain);
                    }
                }
                if (auto *P = dyn_cast<PHINode>(&I)) {
                    J::Array a;
                    for (unsigned k = 0; k < P->getNumIncomingValues(); k++)
                        a.push_back(J::Array{ref(P->getIncomingValue(k)), bid[P->getIncomingBlock(k)]});
                    j["in_"] = std::move(a);
                }
                else if (auto *B = dyn_cast<BranchInst>(&I)) {
                    J::Array s;
                    for (unsigned k = 0; k < B->getNumSuccessors(); k++)
                        s.push_back(bid[B->getSuccessor(k)]);
                    j["s"] = std::move(s);
                    if (B->isConditional())
                        j["c"] = ref(B->getCondition());
                }
                else if (auto *S = dyn_cast<SwitchInst>(&I)) {
                    j["c"] = ref(S->getCondition());
                    J::Array s;
                    s.push_back(bid[S->getDefaultDest()]);
                    J::Array cs;
                    for (auto &c : S->cases()) {
                        s.push_back(bid[c.getCaseSuccessor()]);
                        cs.push_back(c.getCaseValue()->getSExtValue());
                    }
                    j["s"]  = std::move(s);
                    j["cs"] = std::move(cs);
                }
                else if (auto *C = dyn_cast<CallBase>(&I)) {
                    const Value *cv = C->getCalledOperand()->stripPointerCasts();
                    if (auto *cf = dyn_cast<Function>(cv)) {
                        j["f"] = gname(cf);
                        if (cf->isVarArg())
                            j["va"] = (int64_t)cf->getFunctionType()->getNumParams();
                    }
                    else
                        j["fp"] = ref(cv);
                    J::Array a;
                    for (auto &x : C->args())
                        a.push_back(ref(x.get()));
                    j["a"] = std::move(a);
                    bool bv = false;
                    for (unsigned k = 0; k < C->arg_size(); k++)
                        if (C->isByValArgument(k))
                            bv = true;
                    if (bv) {
                        J::Array bva;
                        for (unsigned k = 0; k < C->arg_size(); k++)
                            bva.push_back(C->isByValArgument(k) ? ty(C->getParamByValType(k)) : "");
                        j["bv"] = std::move(bva);
                    }
                }
                else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                    auto                      *GO = cast<GEPOperator>(&I);
                    MapVector<Value *, APInt>  vo;
                    APInt                      co(64, 0);
                    if (GO->collectOffset(DL, 64, vo, co)) {
                        j["b"] = ref(G->getPointerOperand());
                        j["o"] = co.getSExtValue();
                        J::Array v;
                        for (auto &kv : vo)
                            v.push_back(J::Array{ref(kv.first), kv.second.getSExtValue()});
                        j["v"] = std::move(v);
                        j["p"] = path(GO);
                        j["et"] = ty(G->getResultElementType());
                    }
                    else { // VLA etc.
                        j["b"]  = ref(G->getPointerOperand());
                        j["o"]  = nullptr;
                    }
                }
                else if (auto *A = dyn_cast<AllocaInst>(&I)) {
                    j["at"] = ty(A->getAllocatedType());
                    j["n"]  = ref(A->getArraySize());
                    j["sz"] = (int64_t)DL.getTypeAllocSize(A->getAllocatedType()).getFixedValue();
                }
                else {
                    if (auto *C = dyn_cast<CmpInst>(&I))
                        j["pr"] = CmpInst::getPredicateName(C->getPredicate()).str();
                    if (auto *L = dyn_cast<LoadInst>(&I)) {
                        if (L->isVolatile())
                            j["vol"] = 1;
                    }
                    if (auto *C = dyn_cast<CastInst>(&I))
                        j["ft"] = ty(C->getSrcTy());
                    if (auto *S = dyn_cast<StoreInst>(&I)) {
                        j["st"] = ty(S->getValueOperand()->getType());
                        j["sz"] = (int64_t)DL.getTypeStoreSize(S->getValueOperand()->getType()).getFixedValue();
                    }
                    if (isa<LoadInst>(&I))
                        j["sz"] = (int64_t)DL.getTypeStoreSize(I.getType()).getFixedValue();
                    J::Array a;
                    for (auto &x : I.operands())
                        a.push_back(ref(x.get()));
                    j["a"] = std::move(a);
                    if (auto *EV = dyn_cast<ExtractValueInst>(&I)) {
                        J::Array ix;
                        for (auto k : EV->indices())
                            ix.push_back((int64_t)k);
                        j["ix"] = std::move(ix);
                    }
                    if (auto *IV = dyn_cast<InsertValueInst>(&I)) {
                        J::Array ix;
                        for (auto k : IV->indices())
                            ix.push_back((int64_t)k);
                        j["ix"] = std::move(ix);
                    }
                }
                ins.push_back(std::move(j));
            }
            blocks.push_back(std::move(ins));
        }
        o["blocks"] = std::move(blocks);
        os << J::Value(std::move(o)) << "\n";
    }
};

static std::string Tag;
std::string FnDump::symName(const GlobalValue *g)
{
    std::string n = g->getName().str();
    if (isa<GlobalVariable>(g) && g->hasLocalLinkage() && !Tag.empty())
        n += "#" + Tag;
    return n;
}

int main(int argc, char **argv)
{
    std::string              out, keep, passes;
    std::vector<std::string> in;
    std::set<std::string>    keepSet, force;
    bool                     doInline = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "-o")
            out = argv[++i];
        else if (a == "--keep") {
            std::ifstream f(argv[++i]);
            std::string   s;
            while (f >> s)
                keepSet.insert(s);
            doInline = true;
        }
        else if (a == "--tag")
            Tag = argv[++i];
        else if (a == "--passes")
            passes = argv[++i];
        else if (a == "--inline")
            force.insert(argv[++i]);
        else
            in.push_back(a);
    }
    LLVMContext             ctx;
    SMDiagnostic            err;
    std::unique_ptr<Module> M;
    for (auto &f : in) {
        auto m = parseIRFile(f, err, ctx);
        if (!m) {
            err.print("irdump", errs());
            return 2;
        }
        for (auto &F : *m)
            if (F.hasAvailableExternallyLinkage())
                F.deleteBody();
        if (M) {
            errs() << "one module per run\n";
            return 2;
        }
        M = std::move(m);
    }
    // names
    std::map<const Function *, std::string> names;
    std::map<std::string, std::set<std::string>> where;
    for (auto &F : *M)
        if (auto *SP = F.getSubprogram())
            where[SP->getName().str()].insert(SP->getFilename().str());
    std::set<std::string> emitted;
    auto canon = [&](const Function &F) -> std::string {
        auto *SP = F.getSubprogram();
        if (!SP)
            return F.getName().str();
        std::string n = SP->getName().str();
        if (where[n].size() > 1 && F.hasLocalLinkage()) {
            StringRef fn = SP->getFilename();
            size_t    p  = fn.rfind('/');
            n += "@" + (p == StringRef::npos ? fn.str() : fn.substr(p + 1).str());
        }
        return n;
    };
    for (auto &F : *M)
        names[&F] = canon(F);
    if (doInline || !force.empty()) {
        for (auto &F : *M) {
            F.removeFnAttr(Attribute::OptimizeNone);
            F.removeFnAttr(Attribute::NoInline);
            if (F.isDeclaration())
                continue;
            std::string b = F.getSubprogram() ? F.getSubprogram()->getName().str() : F.getName().str();
            if ((doInline && !keepSet.count(b) && b != "main") || force.count(b))
                F.addFnAttr(Attribute::AlwaysInline);
            else
                F.removeFnAttr(Attribute::AlwaysInline);
        }
    }
    LoopAnalysisManager     LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager    CGAM;
    ModuleAnalysisManager   MAM;
    PassBuilder             PB;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(false));
        FunctionPassManager FPM;
        FPM.addPass(PromotePass());
        FPM.addPass(InstSimplifyPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        if (!passes.empty())
            if (auto e = PB.parsePassPipeline(MPM, passes)) {
                errs() << "bad pipeline: " << toString(std::move(e)) << "\n";
                return 2;
            }
        MPM.run(*M, MAM);
    }
    for (auto &F : *M)
        if (!F.isDeclaration())
            removeUnreachableBlocks(F);
    // names may have changed owner set (static copies removed)
    names.clear();
    for (auto &F : *M)
        names[&F] = canon(F);

    std::error_code ec;
    raw_fd_ostream  os(out, ec);
    if (ec) {
        errs() << ec.message() << "\n";
        return 2;
    }
    // debug-info types
    DebugInfoFinder DF;
    DF.processModule(*M);
    for (auto *T : DF.types())
        if (auto *D = dyn_cast<DIDerivedType>(T))
            if (D->getTag() == dwarf::DW_TAG_typedef)
                if (auto *C = dyn_cast_or_null<DICompositeType>(D->getBaseType()))
                    if (C->getName().empty())
                        AnonName[C] = D->getName().str();
    std::set<std::string> seen;
    for (auto *T : DF.types())
        if (auto *C = dyn_cast<DICompositeType>(T)) {
            if (C->isForwardDecl())
                continue;
            std::string n = diName(C);
            if (C->getTag() == dwarf::DW_TAG_structure_type || C->getTag() == dwarf::DW_TAG_union_type) {
                if (!seen.insert(n).second)
                    continue;
                J::Array ms;
                for (auto *e : C->getElements())
                    if (auto *m = dyn_cast<DIDerivedType>(e))
                        ms.push_back(J::Array{m->getName().str(), (int64_t)m->getOffsetInBits(),
                                              (int64_t)m->getSizeInBits(), tyStr(m->getBaseType())});
                os << J::Value(J::Object{{"k", "st"},
                                         {"name", n},
                                         {"size", (int64_t)C->getSizeInBits() / 8},
                                         {"file", fileId(C->getDirectory(), C->getFilename())},
                                         {"line", (int64_t)C->getLine()},
                                         {"union", C->getTag() == dwarf::DW_TAG_union_type},
                                         {"m", std::move(ms)}})
                   << "\n";
            }
            else if (C->getTag() == dwarf::DW_TAG_enumeration_type) {
                if (!seen.insert("enum " + n).second)
                    continue;
                J::Array ms;
                for (auto *e : C->getElements())
                    if (auto *m = dyn_cast<DIEnumerator>(e))
                        ms.push_back(J::Array{m->getName().str(), m->getValue().getSExtValue()});
                os << J::Value(J::Object{{"k", "en"}, {"name", n}, {"m", std::move(ms)}}) << "\n";
            }
        }
    for (auto &S : M->getIdentifiedStructTypes()) {
        if (S->isOpaque())
            continue;
        std::string n = "LL:" + stripName(S->getName());
        if (!seen.insert(n).second)
            continue;
        J::Array offs;
        auto    *L = M->getDataLayout().getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++)
            offs.push_back((int64_t)L->getElementOffset(i));
        os << J::Value(J::Object{{"k", "ll"},
                                 {"name", stripName(S->getName())},
                                 {"size", (int64_t)L->getSizeInBytes()},
                                 {"o", std::move(offs)}})
           << "\n";
    }
    for (auto &G : M->globals()) {
        J::Object o{{"k", "gv"}, {"name", FnDump::symName(&G)}, {"const", G.isConstant()}};
        FnDump    d(*M, names);
        SmallVector<DIGlobalVariableExpression *, 1> ge;
        G.getDebugInfo(ge);
        if (!ge.empty()) {
            o["ty"]   = tyStr(ge[0]->getVariable()->getType());
            o["file"] = fileId(ge[0]->getVariable()->getDirectory(), ge[0]->getVariable()->getFilename());
            o["line"] = (int64_t)ge[0]->getVariable()->getLine();
        }
        if (G.hasInitializer()) {
            if (auto *cd = dyn_cast<ConstantDataSequential>(G.getInitializer())) {
                if (cd->isString()) {
                    std::string s = cd->getAsString().str();
                    if (!J::isUTF8(s))
                        s = J::fixUTF8(s);
                    o["str"] = s;
                }
                else {
                    J::Array a;
                    for (unsigned i = 0; i < cd->getNumElements() && i < 4096; i++)
                        if (cd->getElementType()->isIntegerTy())
                            a.push_back((int64_t)cd->getElementAsInteger(i));
                    o["arr"] = std::move(a);
                    o["es"]  = (int64_t)cd->getElementByteSize();
                }
            }
            else if (auto *ca = dyn_cast<ConstantArray>(G.getInitializer())) {
                J::Array a;
                for (auto &x : ca->operands())
                    a.push_back(d.ref(x.get()));
                o["init"] = std::move(a);
            }
            else
                o["init"] = d.ref(G.getInitializer());
        }
        os << J::Value(std::move(o)) << "\n";
    }
    FnDump d(*M, names);
    int    nf = 0;
    for (auto &F : *M) {
        if (F.isDeclaration())
            continue;
        auto       *SP  = F.getSubprogram();
        std::string key = names[&F] + "|" + (SP ? SP->getFilename().str() : "");
        if (!emitted.insert(key).second)
            continue;
        d.dump(F, os);
        nf++;
    }
    J::Array fs;
    for (auto &f : Files)
        fs.push_back(f);
    os << J::Value(J::Object{{"k", "files"}, {"f", std::move(fs)}, {"nfn", nf}}) << "\n";
    return 0;
}
