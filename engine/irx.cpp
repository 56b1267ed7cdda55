// irx: links LLVM bitcode modules, inlines every file-local / template helper
// into its callers, promotes memory to SSA, and exports the program as JSON.
//
//   irx OUT.json PUBLIC.txt NOINLINE.txt a.bc b.bc ...
//
// PUBLIC.txt: names of functions that must stay separate (the library's API).
// NOINLINE.txt: substrings of source file paths whose functions stay opaque.
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/GlobalDCE.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/LoopUnrollPass.h"
#include "llvm/Transforms/Utils/LCSSA.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/Local.h"
#include <fstream>
#include <set>
#include <string>
#include <vector>
using namespace llvm;

static std::set<std::string> readLines(const char* path)
{
    std::set<std::string> out;
    std::ifstream f(path);
    std::string s;
    while (std::getline(f, s)) if (!s.empty()) out.insert(s);
    return out;
}

static std::string typeStr(Type* t)
{
    static std::map<Type*, std::string> cache;
    auto it = cache.find(t);
    if (it != cache.end()) return it->second;
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return cache[t] = os.str();
}

struct LocTable
{
    std::map<const DILocation*, int> ids;
    json::Array rows;

    int get(const DILocation* l)
    {
        if (!l) return -1;
        auto it = ids.find(l);
        if (it != ids.end()) return it->second;
        int parent = get(l->getInlinedAt());
        auto* sp = l->getScope()->getSubprogram();
        json::Array r;
        r.push_back(l->getFilename().str());
        r.push_back((int64_t) l->getLine());
        r.push_back(sp ? sp->getName().str() : std::string());
        r.push_back(parent);
        int id = (int) rows.size();
        rows.push_back(std::move(r));
        ids[l] = id;
        return id;
    }
};

int main(int argc, char** argv)
{
    if (argc < 5) return 2;
    std::set<std::string> pub = readLines(argv[2]);
    std::set<std::string> noinl = readLines(argv[3]);
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> mod;
    for (int i = 4; i < argc; ++i)
    {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("irx", errs()); return 2; }
        if (!mod) mod = std::move(m);
        else if (Linker::linkModules(*mod, std::move(m)))
        {
            errs() << "irx: link failed for " << argv[i] << "\n";
            return 2;
        }
    }
    auto opaque = [&](const Function& f) {
        if (auto* sp = f.getSubprogram())
        {
            std::string file = sp->getFilename().str();
            for (auto& s : noinl)
                if (file.find(s) != std::string::npos) return true;
        }
        return false;
    };
    auto inRepo = [&](const Function& f) {
        auto* sp = f.getSubprogram();
        if (!sp) return false;
        std::string file = sp->getFilename().str();
        return file.find("ska-sdp-func") != std::string::npos &&
            file.find("/include/c++/") == std::string::npos;
    };
    // Opaque functions become declarations, and what only they used goes away.
    for (auto& f : *mod)
        if (!f.isDeclaration() && opaque(f))
        {
            f.deleteBody();
            f.setComdat(nullptr);
        }
    {
        PassBuilder pb;
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cgam;
        ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cgam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cgam, mam);
        ModulePassManager mpm;
        mpm.addPass(GlobalDCEPass());
        mpm.run(*mod, mam);
    }
    // Bottom-up inlining of everything that is not public and not opaque.
    std::vector<Function*> order;
    {
        CallGraph cg(*mod);
        for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it)
            for (auto* n : *it)
                if (n->getFunction() && !n->getFunction()->isDeclaration())
                    order.push_back(n->getFunction());
    }
    std::set<Function*> done;
    std::map<Function*, unsigned> size;
    for (Function* f : order)
    {
        if (f->hasFnAttribute(Attribute::NoInline)) f->removeFnAttr(Attribute::NoInline);
        f->removeFnAttr(Attribute::OptimizeNone);
    }
    for (Function* f : order)
    {
        if (opaque(*f)) { done.insert(f); continue; }
        bool again = true;
        int rounds = 0;
        while (again && rounds++ < 64)
        {
            again = false;
            std::vector<CallBase*> calls;
            for (auto& ins : instructions(*f))
                if (auto* cb = dyn_cast<CallBase>(&ins))
                {
                    Function* c = cb->getCalledFunction();
                    if (!c || c->isDeclaration() || c == f) continue;
                    if (pub.count(c->getName().str()) || opaque(*c)) continue;
                    if (!done.count(c)) continue;  // recursion
                    if (size[c] > 60000 || f->getInstructionCount() > 250000) continue;
                    if (!inRepo(*c) && size[c] > 400) continue;
                    calls.push_back(cb);
                }
            for (auto* cb : calls)
            {
                InlineFunctionInfo ifi;
                if (InlineFunction(*cb, ifi).isSuccess()) again = true;
            }
        }
        done.insert(f);
        size[f] = f->getInstructionCount();
    }
    // Promote and tidy up.
    {
        PassBuilder pb;
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cgam;
        ModuleAnalysisManager mam;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cgam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cgam, mam);
        FunctionPassManager fpm;
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        // Nothing is folded in the raw form: values never set stay visible.
        const bool raw = getenv("IRX_RAW") != nullptr;
        if (!raw)
        {
        fpm.addPass(EarlyCSEPass(true));
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        fpm.addPass(InstSimplifyPass());
        fpm.addPass(LoopSimplifyPass());
        fpm.addPass(LCSSAPass());
        LoopUnrollOptions lo(2);
        lo.setPartial(false).setRuntime(false).setUpperBound(false)
            .setPeeling(false).setFullUnrollMaxCount(5);
        fpm.addPass(LoopUnrollPass(lo));
        fpm.addPass(SROAPass(SROAOptions::PreserveCFG));
        fpm.addPass(InstSimplifyPass());
        fpm.addPass(EarlyCSEPass(true));
        fpm.addPass(DCEPass());
        }
        fpm.addPass(LoopSimplifyPass());
        ModulePassManager mpm;
        mpm.addPass(createModuleToFunctionPassAdaptor(std::move(fpm)));
        mpm.run(*mod, mam);
    }
    const DataLayout& dl = mod->getDataLayout();
    LocTable locs;
    json::Object root;
    json::Array funcs;
    // Which internal functions remain referenced?
    for (Function& f : *mod)
    {
        if (f.isDeclaration() || opaque(f) || !inRepo(f)) continue;
        bool isPub = pub.count(f.getName().str());
        // Skip inlined-away helpers, unless something still calls them.
        if (!isPub && f.use_empty() && !f.hasExternalLinkage()) continue;
        if (!isPub && f.hasLinkOnceLinkage()) {
            bool used = false;
            for (auto* u : f.users()) if (isa<Instruction>(u)) used = true;
            if (!used) continue;
        }
        json::Object fo;
        fo["name"] = f.getName().str();
        fo["public"] = isPub;
        fo["linkage"] = f.hasLocalLinkage() ? "internal" :
            (f.hasLinkOnceLinkage() ? "linkonce" : "external");
        DISubprogram* sp = f.getSubprogram();
        fo["file"] = sp ? sp->getFilename().str() : "";
        fo["line"] = sp ? (int64_t) sp->getLine() : 0;
        fo["dname"] = sp ? sp->getName().str() : "";
        fo["ret"] = typeStr(f.getReturnType());
        // Argument names and pointee constness.
        std::map<unsigned, const DILocalVariable*> argVars;
        if (sp)
            for (auto* n : sp->getRetainedNodes())
                if (auto* v = dyn_cast<DILocalVariable>(n))
                    if (v->getArg()) argVars[v->getArg() - 1] = v;
        std::map<const Value*, std::string> names;
        for (auto& ins : instructions(f))
        {
            if (auto* d = dyn_cast<DbgVariableIntrinsic>(&ins))
            {
                auto* v = d->getVariable();
                if (auto* val = d->getVariableLocationOp(0))
                    if (!names.count(val)) names[val] = v->getName().str();
                if (v->getArg() && !d->getDebugLoc().getInlinedAt())
                    argVars[v->getArg() - 1] = v;
            }
        }
        std::string rdesc;
        if (auto* sp = f.getSubprogram())
            if (auto* ty = sp->getType())
            {
                auto ta = ty->getTypeArray();
                const DIType* t = ta.size() ? ta[0] : nullptr;
                while (t)
                {
                    if (auto* dt = dyn_cast<DIDerivedType>(t))
                    {
                        if (dt->getTag() == dwarf::DW_TAG_pointer_type) rdesc += "*";
                        else if (dt->getTag() == dwarf::DW_TAG_const_type) rdesc += "c";
                        t = dt->getBaseType();
                    }
                    else { rdesc += ":" + t->getName().str(); break; }
                }
            }
        fo["rdbg"] = rdesc;
        json::Array args;
        for (auto& a : f.args())
        {
            json::Object ao;
            ao["type"] = typeStr(a.getType());
            auto it = argVars.find(a.getArgNo());
            ao["name"] = it != argVars.end() ? it->second->getName().str() :
                (names.count(&a) ? names[&a] : "");
            // Debug type description.
            std::string desc;
            if (it != argVars.end())
            {
                const DIType* t = it->second->getType();
                while (t)
                {
                    if (auto* dt = dyn_cast<DIDerivedType>(t))
                    {
                        if (dt->getTag() == dwarf::DW_TAG_pointer_type) desc += "*";
                        else if (dt->getTag() == dwarf::DW_TAG_const_type) desc += "c";
                        else if (dt->getTag() == dwarf::DW_TAG_reference_type) desc += "&";
                        else if (dt->getTag() == dwarf::DW_TAG_typedef) { }
                        t = dt->getBaseType();
                    }
                    else { desc += ":" + t->getName().str(); break; }
                }
            }
            ao["dbg"] = desc;
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        // Numbering.
        std::map<const Value*, int> ids;
        std::map<const BasicBlock*, int> bbs;
        int n = 0, nb = 0;
        for (auto& bb : f)
        {
            bbs[&bb] = nb++;
            for (auto& ins : bb)
                if (!isa<DbgInfoIntrinsic>(ins)) ids[&ins] = n++;
        }
        std::function<json::Value(const Value*)> opnd = [&](const Value* v) -> json::Value {
            auto it = ids.find(v);
            if (it != ids.end()) return it->second;
            if (auto* a = dyn_cast<Argument>(v)) return "a" + std::to_string(a->getArgNo());
            if (auto* c = dyn_cast<ConstantInt>(v))
            {
                if (c->getBitWidth() <= 64) return "i:" + std::to_string(c->getSExtValue());
                return "x:bigint";
            }
            if (auto* c = dyn_cast<ConstantFP>(v))
            {
                SmallString<32> s;
                c->getValueAPF().toString(s);
                return "f:" + std::string(s.str());
            }
            if (isa<ConstantPointerNull>(v)) return "n";
            if (isa<UndefValue>(v)) return "u";
            if (auto* g = dyn_cast<GlobalValue>(v)) return "g:" + g->getName().str();
            if (auto* ce = dyn_cast<ConstantExpr>(v))
            {
                const Value* base = ce->stripPointerCasts();
                APInt off(64, 0);
                base = base->stripAndAccumulateConstantOffsets(dl, off, true);
                if (auto* g = dyn_cast<GlobalValue>(base))
                    return "g:" + g->getName().str() + "+" + std::to_string(off.getSExtValue());
            }
            if (auto* c = dyn_cast<Constant>(v)) if (c->isNullValue()) return "z";
            return "x:" + std::to_string(v->getValueID());
        };
        json::Array blocks;
        for (auto& bb : f)
        {
            json::Array insts;
            for (auto& ins : bb)
            {
                if (isa<DbgInfoIntrinsic>(ins)) continue;
                json::Array r;
                r.push_back(ids[&ins]);
                r.push_back(ins.getOpcodeName());
                r.push_back(typeStr(ins.getType()));
                json::Array ops;
                json::Value ex = nullptr;
                if (auto* p = dyn_cast<PHINode>(&ins))
                {
                    json::Array in;
                    for (unsigned k = 0; k < p->getNumIncomingValues(); ++k)
                    {
                        ops.push_back(opnd(p->getIncomingValue(k)));
                        in.push_back(bbs[p->getIncomingBlock(k)]);
                    }
                    ex = std::move(in);
                }
                else if (auto* b = dyn_cast<BranchInst>(&ins))
                {
                    if (b->isConditional()) ops.push_back(opnd(b->getCondition()));
                    json::Array s;
                    for (unsigned k = 0; k < b->getNumSuccessors(); ++k) s.push_back(bbs[b->getSuccessor(k)]);
                    ex = std::move(s);
                }
                else if (auto* sw = dyn_cast<SwitchInst>(&ins))
                {
                    ops.push_back(opnd(sw->getCondition()));
                    json::Array s;
                    s.push_back(bbs[sw->getDefaultDest()]);
                    for (auto& c : sw->cases())
                    {
                        json::Array p;
                        p.push_back(c.getCaseValue()->getSExtValue());
                        p.push_back(bbs[c.getCaseSuccessor()]);
                        s.push_back(std::move(p));
                    }
                    ex = std::move(s);
                }
                else if (auto* c = dyn_cast<CmpInst>(&ins))
                {
                    ops.push_back(opnd(c->getOperand(0)));
                    ops.push_back(opnd(c->getOperand(1)));
                    ex = CmpInst::getPredicateName(c->getPredicate()).str();
                }
                else if (auto* c = dyn_cast<CallBase>(&ins))
                {
                    for (auto& a : c->args()) ops.push_back(opnd(a.get()));
                    Value* cv = c->getCalledOperand()->stripPointerCasts();
                    if (auto* cf = dyn_cast<Function>(cv)) ex = cf->getName().str();
                    else { json::Array ind; ind.push_back(opnd(cv)); ex = std::move(ind); }
                }
                else if (auto* g = dyn_cast<GetElementPtrInst>(&ins))
                {
                    ops.push_back(opnd(g->getPointerOperand()));
                    MapVector<Value*, APInt> vo;
                    APInt co(64, 0);
                    json::Array e;
                    if (cast<GEPOperator>(g)->collectOffset(dl, 64, vo, co))
                    {
                        e.push_back(co.getSExtValue());
                        json::Array terms;
                        for (auto& kv : vo)
                        {
                            json::Array t;
                            t.push_back(opnd(kv.first));
                            t.push_back(kv.second.getSExtValue());
                            terms.push_back(std::move(t));
                        }
                        e.push_back(std::move(terms));
                    }
                    e.push_back(typeStr(g->getSourceElementType()));
                    ex = std::move(e);
                }
                else if (auto* a = dyn_cast<AllocaInst>(&ins))
                {
                    ops.push_back(opnd(a->getArraySize()));
                    json::Array e;
                    e.push_back(typeStr(a->getAllocatedType()));
                    e.push_back((int64_t) dl.getTypeAllocSize(a->getAllocatedType()).getFixedValue());
                    ex = std::move(e);
                }
                else if (auto* s = dyn_cast<StoreInst>(&ins))
                {
                    ops.push_back(opnd(s->getValueOperand()));
                    ops.push_back(opnd(s->getPointerOperand()));
                    ex = typeStr(s->getValueOperand()->getType());
                }
                else if (auto* e = dyn_cast<ExtractValueInst>(&ins))
                {
                    ops.push_back(opnd(e->getAggregateOperand()));
                    json::Array ix;
                    for (unsigned k : e->indices()) ix.push_back((int64_t) k);
                    ex = std::move(ix);
                }
                else if (auto* e = dyn_cast<InsertValueInst>(&ins))
                {
                    ops.push_back(opnd(e->getAggregateOperand()));
                    ops.push_back(opnd(e->getInsertedValueOperand()));
                    json::Array ix;
                    for (unsigned k : e->indices()) ix.push_back((int64_t) k);
                    ex = std::move(ix);
                }
                else
                {
                    for (auto& o : ins.operands()) ops.push_back(opnd(o.get()));
                    if (auto* rmw = dyn_cast<AtomicRMWInst>(&ins))
                        ex = AtomicRMWInst::getOperationName(rmw->getOperation()).str();
                }
                // i32/i64 wrap flags.
                r.push_back(std::move(ops));
                r.push_back(std::move(ex));
                r.push_back(locs.get(ins.getDebugLoc().get()));
                auto nm = names.find(&ins);
                if (nm != names.end()) r.push_back(nm->second);
                insts.push_back(std::move(r));
            }
            blocks.push_back(std::move(insts));
        }
        fo["blocks"] = std::move(blocks);
        funcs.push_back(std::move(fo));
    }
    root["functions"] = std::move(funcs);
    root["locs"] = std::move(locs.rows);
    // Globals.
    json::Array globals;
    for (auto& g : mod->globals())
    {
        json::Object go;
        go["name"] = g.getName().str();
        go["const"] = g.isConstant();
        go["internal"] = g.hasLocalLinkage();
        go["decl"] = g.isDeclaration();
        go["tls"] = g.isThreadLocal();
        go["type"] = typeStr(g.getValueType());
        SmallVector<DIGlobalVariableExpression*, 1> gv;
        g.getDebugInfo(gv);
        if (!gv.empty())
        {
            go["dname"] = gv[0]->getVariable()->getName().str();
            go["file"] = gv[0]->getVariable()->getFilename().str();
            go["line"] = (int64_t) gv[0]->getVariable()->getLine();
        }
        if (g.hasInitializer())
        {
            if (auto* ca = dyn_cast<ConstantDataArray>(g.getInitializer()))
            {
                if (ca->isCString()) go["str"] = json::fixUTF8(ca->getAsCString());
                else if (ca->isString()) go["str"] = json::fixUTF8(ca->getAsString());
                else if (ca->getElementType()->isIntegerTy() && ca->getNumElements() <= 64)
                {
                    json::Array v;
                    for (unsigned k = 0; k < ca->getNumElements(); ++k)
                        v.push_back((int64_t) ca->getElementAsInteger(k));
                    go["ints"] = std::move(v);
                }
            }
        }
        globals.push_back(std::move(go));
    }
    root["globals"] = std::move(globals);
    // Struct layouts from debug info (members: name, byte offset, type name).
    json::Object structs;
    DebugInfoFinder finder;
    finder.processModule(*mod);
    for (auto* t : finder.types())
    {
        auto* ct = dyn_cast<DICompositeType>(t);
        if (!ct || ct->isForwardDecl() || ct->getName().empty()) continue;
        if (ct->getTag() != dwarf::DW_TAG_structure_type) continue;
        json::Array ms;
        for (auto* e : ct->getElements())
        {
            auto* m = dyn_cast_or_null<DIDerivedType>(e);
            if (!m || m->getTag() != dwarf::DW_TAG_member || m->isStaticMember()) continue;
            std::string desc;
            const DIType* mt = m->getBaseType();
            while (mt)
            {
                if (auto* dt = dyn_cast<DIDerivedType>(mt))
                {
                    if (dt->getTag() == dwarf::DW_TAG_pointer_type) desc += "*";
                    mt = dt->getBaseType();
                }
                else { desc += ":" + mt->getName().str(); break; }
            }
            json::Array r;
            r.push_back(m->getName().str());
            r.push_back((int64_t) m->getOffsetInBits() / 8);
            r.push_back(desc);
            ms.push_back(std::move(r));
        }
        json::Object so;
        so["file"] = ct->getFilename().str();
        so["line"] = (int64_t) ct->getLine();
        so["size"] = (int64_t) ct->getSizeInBits() / 8;
        so["members"] = std::move(ms);
        structs[ct->getName().str()] = std::move(so);
    }
    root["structs"] = std::move(structs);
    json::Array decls;
    for (auto& f : *mod) if (f.isDeclaration() || opaque(f)) decls.push_back(f.getName().str());
    root["decls"] = std::move(decls);
    std::error_code ec;
    raw_fd_ostream os(argv[1], ec);
    if (ec) return 2;
    os << json::Value(std::move(root));
    return 0;
}
