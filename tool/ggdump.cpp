// ggdump: normalise an LLVM module and print it as JSON for the analyses in
// /verif/sa. Usage: ggdump IN.bc OUT.json [--keep FILE] [--passes PIPELINE]
//
// With --keep, every defined function whose name is not listed in FILE (one
// per line) is inlined into its callers (unless recursive). Nothing here
// decides anything: this only puts the program into a form which does not
// depend on how it was divided into helper functions, statements and
// temporaries.
#include "llvm/ADT/SCCIterator.h"
#include "llvm/Analysis/CallGraph.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <map>
#include <set>
#include <string>

using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static int nextId;

/* debug info types, numbered on demand */
static std::map<const DIType *, int> typeIds;
static std::vector<const DIType *> typeList;

static int typeId(const DIType *t)
{
    if (!t) return -1;
    auto it = typeIds.find(t);
    if (it != typeIds.end()) return it->second;
    int id = typeList.size();
    typeIds[t] = id;
    typeList.push_back(t);
    return id;
}

static std::string tyStr(Type *t)
{
    std::string s;
    raw_string_ostream os(s);
    t->print(os, false, true);
    return os.str();
}

static json::Value operand(const Value *v);

static json::Value gepParts(const GEPOperator *g)
{
    /* base, constant offset, variable indices, struct type, and the source
     * element type */
    json::Object o;
    o["base"] = operand(g->getPointerOperand());
    int64_t off = 0;
    json::Array var;
    json::Array path;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) {
            unsigned f = cast<ConstantInt>(idx)->getZExtValue();
            int64_t fo = DL->getStructLayout(st)->getElementOffset(f);
            off += fo;
            json::Object p;
            p["s"] = st->hasName() ? st->getName().str() : std::string("?");
            p["o"] = fo;
            path.push_back(std::move(p));
        } else {
            int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(idx)) {
                off += ci->getSExtValue() * sz;
                if (ci->getSExtValue() != 0) {
                    json::Object p;
                    p["i"] = ci->getSExtValue();
                    p["sz"] = sz;
                    path.push_back(std::move(p));
                }
            } else {
                json::Array a;
                a.push_back(sz);
                a.push_back(operand(idx));
                var.push_back(std::move(a));
                json::Object p;
                p["v"] = operand(idx);
                p["sz"] = sz;
                path.push_back(std::move(p));
            }
        }
    }
    o["off"] = off;
    o["var"] = std::move(var);
    o["path"] = std::move(path);
    o["srcty"] = tyStr(g->getSourceElementType());
    return o;
}

static json::Value operand(const Value *v)
{
    json::Array a;
    if (auto *ci = dyn_cast<ConstantInt>(v)) {
        a.push_back("c");
        if (ci->getBitWidth() <= 64) a.push_back(ci->getSExtValue());
        else a.push_back(0);
        a.push_back((int64_t) ci->getBitWidth());
    } else if (isa<ConstantPointerNull>(v)) {
        a.push_back("n");
    } else if (isa<UndefValue>(v)) {
        a.push_back("u");
    } else if (auto *f = dyn_cast<Function>(v)) {
        a.push_back("f");
        a.push_back(f->getName());
    } else if (auto *ga = dyn_cast<GlobalAlias>(v)) {
        return operand(ga->getAliasee());
    } else if (auto *g = dyn_cast<GlobalValue>(v)) {
        a.push_back("g");
        a.push_back(g->getName());
    } else if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            a.push_back("gep");
            a.push_back(gepParts(cast<GEPOperator>(ce)));
        } else {
            a.push_back("ce");
            a.push_back(ce->getOpcodeName());
            json::Array ops;
            for (auto &op : ce->operands()) ops.push_back(operand(op.get()));
            a.push_back(std::move(ops));
        }
    } else if (isa<ConstantAggregate>(v) || isa<ConstantAggregateZero>(v) || isa<ConstantDataSequential>(v)) {
        a.push_back("agg");
    } else if (isa<ConstantFP>(v)) {
        a.push_back("fp");
    } else if (isa<Constant>(v)) {
        a.push_back("k");
    } else if (auto *bb = dyn_cast<BasicBlock>(v)) {
        a.push_back("b");
        a.push_back(ids[bb]);
    } else if (isa<MetadataAsValue>(v)) {
        a.push_back("m");
    } else if (isa<InlineAsm>(v)) {
        a.push_back("asm");
    } else {
        a.push_back("v");
        a.push_back(ids[v]);
    }
    return a;
}

static json::Value locOf(const DebugLoc &dl)
{
    if (!dl) return nullptr;
    json::Array a;
    const DILocation *l = dl.get();
    a.push_back(l->getFilename());
    a.push_back((int64_t) l->getLine());
    json::Array chain;
    for (; l; l = l->getInlinedAt()) {
        std::string nm;
        if (auto *sp = l->getScope()->getSubprogram()) nm = sp->getName().str();
        chain.push_back(nm);
    }
    a.push_back(std::move(chain));
    return a;
}

static json::Value constInit(const Constant *c, int depth)
{
    /* integers, arrays, structs and addresses */
    if (depth > 8) return nullptr;
    if (auto *cs = dyn_cast<ConstantStruct>(c)) {
        json::Object o;
        json::Array els;
        auto *sl = DL->getStructLayout(cs->getType());
        for (unsigned i = 0; i < cs->getNumOperands(); i++) {
            json::Array e;
            e.push_back((int64_t) sl->getElementOffset(i));
            e.push_back((int64_t) DL->getTypeAllocSize(cs->getOperand(i)->getType()));
            e.push_back(constInit(cs->getOperand(i), depth + 1));
            els.push_back(std::move(e));
        }
        o["struct"] = std::move(els);
        return o;
    }
    if (auto *ca = dyn_cast<ConstantArray>(c)) {
        json::Object o;
        json::Array els;
        for (auto &op : ca->operands()) els.push_back(constInit(cast<Constant>(op.get()), depth + 1));
        o["array"] = std::move(els);
        o["esz"] = (int64_t) DL->getTypeAllocSize(ca->getType()->getElementType());
        return o;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
        json::Object o;
        json::Array els;
        if (cd->getElementType()->isIntegerTy())
            for (unsigned i = 0; i < cd->getNumElements() && i < 65536; i++) {
                json::Array e;
                e.push_back("c");
                e.push_back((int64_t) cd->getElementAsInteger(i));
                els.push_back(std::move(e));
            }
        o["array"] = std::move(els);
        o["esz"] = (int64_t) DL->getTypeAllocSize(cd->getElementType());
        return o;
    }
    if (isa<ConstantAggregateZero>(c)) {
        json::Object o;
        o["zero"] = (int64_t) DL->getTypeAllocSize(c->getType());
        return o;
    }
    return operand(c);
}

static json::Value dumpType(const DIType *t)
{
    json::Object o;
    o["name"] = t->getName();
    o["bits"] = (int64_t) t->getSizeInBits();
    switch (t->getTag()) {
        case dwarf::DW_TAG_base_type: o["k"] = "base"; break;
        case dwarf::DW_TAG_pointer_type:
        case dwarf::DW_TAG_reference_type:
        case dwarf::DW_TAG_rvalue_reference_type:
            o["k"] = "ptr";
            o["to"] = typeId(cast<DIDerivedType>(t)->getBaseType());
            break;
        case dwarf::DW_TAG_typedef:
        case dwarf::DW_TAG_const_type:
        case dwarf::DW_TAG_volatile_type:
        case dwarf::DW_TAG_restrict_type:
        case dwarf::DW_TAG_atomic_type:
        {
            o["k"] = t->getTag() == dwarf::DW_TAG_typedef ? "typedef" :
                     t->getTag() == dwarf::DW_TAG_volatile_type ? "volatile" : "qual";
            o["to"] = typeId(cast<DIDerivedType>(t)->getBaseType());
            break;
        }
        case dwarf::DW_TAG_structure_type:
        case dwarf::DW_TAG_union_type:
        case dwarf::DW_TAG_class_type:
        {
            auto *ct = cast<DICompositeType>(t);
            o["k"] = t->getTag() == dwarf::DW_TAG_union_type ? "union" : "struct";
            o["decl"] = ct->isForwardDecl();
            json::Array ms;
            for (auto *e : ct->getElements()) {
                auto *d = dyn_cast_or_null<DIDerivedType>(e);
                if (!d) continue;
                if (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance) continue;
                if (d->isStaticMember()) continue;
                json::Object m;
                m["name"] = d->getTag() == dwarf::DW_TAG_inheritance ? StringRef("<base>") : d->getName();
                m["off"] = (int64_t) d->getOffsetInBits();
                m["bits"] = (int64_t) d->getSizeInBits();
                m["t"] = typeId(d->getBaseType());
                ms.push_back(std::move(m));
            }
            o["m"] = std::move(ms);
            o["ident"] = ct->getIdentifier();
            break;
        }
        case dwarf::DW_TAG_array_type:
        {
            auto *ct = cast<DICompositeType>(t);
            o["k"] = "array";
            o["to"] = typeId(ct->getBaseType());
            int64_t n = 1;
            for (auto *e : ct->getElements()) {
                if (auto *sr = dyn_cast_or_null<DISubrange>(e)) {
                    if (auto *ci = sr->getCount().dyn_cast<ConstantInt *>()) n *= ci->getSExtValue();
                    else n = -1;
                }
            }
            o["n"] = n;
            break;
        }
        case dwarf::DW_TAG_subroutine_type:
        {
            o["k"] = "func";
            json::Array ps;
            for (auto *e : cast<DISubroutineType>(t)->getTypeArray())
                ps.push_back(typeId(dyn_cast_or_null<DIType>(e)));
            o["sig"] = std::move(ps);
            break;
        }
        case dwarf::DW_TAG_enumeration_type: o["k"] = "enum"; break;
        default: o["k"] = "other"; break;
    }
    return o;
}

int main(int argc, char **argv)
{
    std::string in, out, keepFile, passes, ll;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--keep") keepFile = argv[++i];
        else if (a == "--passes") passes = argv[++i];
        else if (a == "--ll") ll = argv[++i];
        else if (in.empty()) in = a;
        else out = a;
    }
    LLVMContext ctx;
    SMDiagnostic err;
    std::unique_ptr<Module> m = parseIRFile(in, err, ctx);
    if (!m) { err.print(argv[0], errs()); return 2; }
    DL = &m->getDataLayout();

    /* the linkage as written, before we change anything */
    std::map<std::string, bool> wasInternal;
    for (auto &f : *m) wasInternal[f.getName().str()] = f.hasLocalLinkage();

    for (auto &f : *m) {
        if (f.isDeclaration()) continue;
        f.removeFnAttr(Attribute::OptimizeNone);
        f.removeFnAttr(Attribute::NoInline);
    }

    std::set<std::string> recursive;
    if (!keepFile.empty()) {
        std::set<std::string> keep;
        std::ifstream kf(keepFile);
        std::string line;
        std::set<std::string> keepRet;
        while (std::getline(kf, line)) {
            if (line.rfind("ret:", 0) == 0) keepRet.insert(line.substr(4));
            else if (!line.empty()) keep.insert(line);
        }
        /* functions which return a pointer to one of the named structures */
        for (auto &f : *m) {
            auto *sp = f.getSubprogram();
            if (!sp || !sp->getType() || !sp->getType()->getTypeArray() || sp->getType()->getTypeArray().size() == 0) continue;
            const DIType *t = sp->getType()->getTypeArray()[0];
            bool ptr = false;
            while (auto *d = dyn_cast_or_null<DIDerivedType>(t)) {
                if (d->getTag() == dwarf::DW_TAG_pointer_type) { if (ptr) { ptr = false; break; } ptr = true; }
                t = d->getBaseType();
            }
            if (ptr && t && keepRet.count(t->getName().str())) keep.insert(f.getName().str());
        }
        /* find recursive functions */
        CallGraph cg(*m);
        for (auto it = scc_begin(&cg); !it.isAtEnd(); ++it) {
            if (it.hasCycle())
                for (auto *n : *it)
                    if (n->getFunction()) {
                        /* recursion through a kept function is no obstacle */
                        bool self = false;
                        (void) self;
                        recursive.insert(n->getFunction()->getName().str());
                    }
        }
        /* the call graph without kept functions */
        std::set<std::string> realRec;
        for (auto &f : *m) {
            if (f.isDeclaration() || keep.count(f.getName().str())) continue;
            /* dfs from f through non-kept functions */
            std::set<const Function *> seen;
            std::vector<const Function *> work{&f};
            bool rec = false;
            while (!work.empty() && !rec) {
                const Function *g = work.back();
                work.pop_back();
                for (auto &bb : *g) for (auto &i : bb) {
                    auto *cb = dyn_cast<CallBase>(&i);
                    if (!cb) continue;
                    const Function *c = cb->getCalledFunction();
                    if (!c || c->isDeclaration() || keep.count(c->getName().str())) continue;
                    if (c == &f) rec = true;
                    if (seen.insert(c).second) work.push_back(c);
                }
            }
            if (rec) realRec.insert(f.getName().str());
        }
        recursive = realRec;
        for (auto &f : *m) {
            if (f.isDeclaration()) continue;
            std::string n = f.getName().str();
            if (keep.count(n) || realRec.count(n)) {
                f.addFnAttr(Attribute::NoInline);
                f.removeFnAttr(Attribute::AlwaysInline);
            } else {
                f.addFnAttr(Attribute::AlwaysInline);
            }
        }
    } else {
        for (auto &f : *m)
            if (!f.isDeclaration() && !f.hasFnAttribute(Attribute::AlwaysInline)) f.addFnAttr(Attribute::NoInline);
    }

    if (passes.empty())
        passes = "always-inline,function(sroa<preserve-cfg>,"
                 "simplifycfg<bonus-inst-threshold=0;no-forward-switch-cond;no-switch-range-to-icmp;no-switch-to-lookup;keep-loops;no-hoist-common-insts;no-sink-common-insts;no-speculate-blocks;no-simplify-cond-branch>,"
                 "instcombine<no-verify-fixpoint>,early-cse<memssa>,instcombine<no-verify-fixpoint>,loop-simplify)";
    if (passes != "none") {
        LoopAnalysisManager lam;
        FunctionAnalysisManager fam;
        CGSCCAnalysisManager cgam;
        ModuleAnalysisManager mam;
        PassBuilder pb;
        pb.registerModuleAnalyses(mam);
        pb.registerCGSCCAnalyses(cgam);
        pb.registerFunctionAnalyses(fam);
        pb.registerLoopAnalyses(lam);
        pb.crossRegisterProxies(lam, fam, cgam, mam);
        ModulePassManager mpm;
        if (auto e = pb.parsePassPipeline(mpm, passes)) {
            errs() << "pipeline: " << toString(std::move(e)) << "\n";
            return 2;
        }
        mpm.run(*m, mam);
    }
    if (verifyModule(*m, &errs())) return 2;
    if (!ll.empty()) {
        std::error_code ec2;
        raw_fd_ostream os2(ll, ec2);
        m->print(os2, nullptr);
    }

    json::Object root;
    json::Array funcs, globals, types;
    for (auto &g : m->globals()) {
        json::Object o;
        o["name"] = g.getName();
        o["decl"] = g.isDeclaration();
        o["internal"] = g.hasLocalLinkage();
        o["tls"] = g.isThreadLocal();
        o["const"] = g.isConstant();
        o["size"] = (int64_t) (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()) : TypeSize::getFixed(0));
        SmallVector<DIGlobalVariableExpression *, 1> dis;
        g.getDebugInfo(dis);
        if (!dis.empty()) {
            o["t"] = typeId(dis[0]->getVariable()->getType());
            o["file"] = dis[0]->getVariable()->getFilename();
            o["line"] = (int64_t) dis[0]->getVariable()->getLine();
            o["src"] = dis[0]->getVariable()->getName();
        } else o["t"] = -1;
        if (g.hasInitializer()) o["init"] = constInit(g.getInitializer(), 0);
        globals.push_back(std::move(o));
    }

    for (auto &f : *m) {
        json::Object o;
        o["name"] = f.getName();
        o["decl"] = f.isDeclaration();
        o["internal"] = f.hasLocalLinkage();
        o["noreturn"] = f.doesNotReturn();
        o["recursive"] = recursive.count(f.getName().str()) != 0;
        o["varargs"] = f.isVarArg();
        json::Array sig;
        if (auto *sp = f.getSubprogram()) {
            o["src"] = sp->getName();
            o["file"] = sp->getFilename();
            o["line"] = (int64_t) sp->getLine();
            if (sp->getType())
                for (auto *e : sp->getType()->getTypeArray()) sig.push_back(typeId(dyn_cast_or_null<DIType>(e)));
        }
        o["sig"] = std::move(sig);
        o["llty"] = tyStr(f.getFunctionType());
        if (!f.isDeclaration()) {
            ids.clear();
            nextId = 0;
            json::Array args;
            for (auto &a : f.args()) { ids[&a] = nextId++; json::Object ao; ao["id"] = ids[&a]; ao["ty"] = tyStr(a.getType()); ao["name"] = a.getName(); ao["sret"] = a.hasStructRetAttr(); args.push_back(std::move(ao)); }
            o["args"] = std::move(args);
            int bid = 0;
            for (auto &bb : f) {
                ids[&bb] = bid++;
            }
            for (auto &bb : f) for (auto &i : bb) ids[&i] = nextId++;
            /* names and types of variables */
            std::map<const Value *, std::pair<std::string, int>> vars;
            json::Array blocks;
            for (auto &bb : f) {
                json::Object bo;
                bo["id"] = ids[&bb];
                json::Array instrs;
                for (auto &i : bb) {
                    if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
                        if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0) &&
                            !isa<Constant>(dv->getVariableLocationOp(0)) &&
                            dv->getExpression()->getNumElements() == 0) {
                            auto *v = dv->getVariableLocationOp(0);
                            if (!vars.count(v) || isa<DbgDeclareInst>(dv))
                                vars[v] = {dv->getVariable()->getName().str(),
                                    isa<DbgDeclareInst>(dv) ? typeId(dv->getVariable()->getType()) : typeId(dv->getVariable()->getType())};
                        }
                        continue;
                    }
                    if (isa<DbgInfoIntrinsic>(&i)) continue;
                    if (auto *ii = dyn_cast<IntrinsicInst>(&i)) {
                        auto id = ii->getIntrinsicID();
                        if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end ||
                            id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume)
                            continue;
                    }
                    json::Object io;
                    io["id"] = ids[&i];
                    io["op"] = i.getOpcodeName();
                    io["ty"] = tyStr(i.getType());
                    io["loc"] = locOf(i.getDebugLoc());
                    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                        io["gep"] = gepParts(cast<GEPOperator>(g));
                    } else if (auto *p = dyn_cast<PHINode>(&i)) {
                        json::Array inc;
                        for (unsigned k = 0; k < p->getNumIncomingValues(); k++) {
                            json::Array e;
                            e.push_back(operand(p->getIncomingValue(k)));
                            e.push_back(ids[p->getIncomingBlock(k)]);
                            inc.push_back(std::move(e));
                        }
                        io["inc"] = std::move(inc);
                    } else if (auto *cb = dyn_cast<CallBase>(&i)) {
                        json::Array ops;
                        for (auto &a : cb->args()) ops.push_back(operand(a.get()));
                        io["ops"] = std::move(ops);
                        io["callee"] = operand(cb->getCalledOperand()->stripPointerCasts());
                        if (isa<InvokeInst>(cb)) {
                            auto *inv = cast<InvokeInst>(cb);
                            io["normal"] = ids[inv->getNormalDest()];
                            io["unwind"] = ids[inv->getUnwindDest()];
                        }
                    } else {
                        json::Array ops;
                        for (auto &a : i.operands()) ops.push_back(operand(a.get()));
                        io["ops"] = std::move(ops);
                    }
                    if (auto *c = dyn_cast<CmpInst>(&i)) io["pred"] = CmpInst::getPredicateName(c->getPredicate());
                    if (auto *l = dyn_cast<LoadInst>(&i)) { io["vol"] = l->isVolatile(); io["sz"] = (int64_t) DL->getTypeStoreSize(l->getType()); }
                    if (auto *s = dyn_cast<StoreInst>(&i)) { io["vol"] = s->isVolatile(); io["sz"] = (int64_t) DL->getTypeStoreSize(s->getValueOperand()->getType()); io["vty"] = tyStr(s->getValueOperand()->getType()); }
                    if (auto *al = dyn_cast<AllocaInst>(&i)) { io["aty"] = tyStr(al->getAllocatedType()); io["sz"] = (int64_t) DL->getTypeAllocSize(al->getAllocatedType()); }
                    if (auto *sw = dyn_cast<SwitchInst>(&i)) {
                        json::Array cs;
                        for (auto &c : sw->cases()) {
                            json::Array e;
                            e.push_back(c.getCaseValue()->getSExtValue());
                            e.push_back(ids[c.getCaseSuccessor()]);
                            cs.push_back(std::move(e));
                        }
                        io["cases"] = std::move(cs);
                        io["default"] = ids[sw->getDefaultDest()];
                    }
                    if (auto *sel = dyn_cast<SelectInst>(&i)) (void) sel;
                    if (i.getType()->isIntegerTy()) io["w"] = (int64_t) i.getType()->getIntegerBitWidth();
                    if (i.isTerminator()) {
                        json::Array su;
                        for (unsigned k = 0; k < i.getNumSuccessors(); k++) su.push_back(ids[i.getSuccessor(k)]);
                        io["succ"] = std::move(su);
                    }
                    instrs.push_back(std::move(io));
                }
                bo["i"] = std::move(instrs);
                blocks.push_back(std::move(bo));
            }
            o["blocks"] = std::move(blocks);
            json::Array vs;
            for (auto &kv : vars) {
                json::Array e;
                e.push_back(operand(kv.first));
                e.push_back(kv.second.first);
                e.push_back(kv.second.second);
                vs.push_back(std::move(e));
            }
            o["vars"] = std::move(vs);
        }
        funcs.push_back(std::move(o));
    }
    /* composite layouts of LLVM struct types */
    json::Object structs;
    for (auto *st : m->getIdentifiedStructTypes()) {
        if (st->isOpaque() || !st->isSized()) continue;
        json::Object so;
        so["size"] = (int64_t) DL->getTypeAllocSize(st);
        json::Array fo;
        for (unsigned i = 0; i < st->getNumElements(); i++) {
            json::Array e;
            e.push_back((int64_t) DL->getStructLayout(st)->getElementOffset(i));
            e.push_back(tyStr(st->getElementType(i)));
            fo.push_back(std::move(e));
        }
        so["f"] = std::move(fo);
        structs[st->getName()] = std::move(so);
    }
    /* retained composite types even if not otherwise referenced */
    DebugInfoFinder finder;
    finder.processModule(*m);
    for (auto *t : finder.types()) typeId(t);
    for (size_t i = 0; i < typeList.size(); i++) types.push_back(dumpType(typeList[i]));
    root["functions"] = std::move(funcs);
    root["globals"] = std::move(globals);
    root["types"] = std::move(types);
    root["structs"] = std::move(structs);
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    if (ec) return 2;
    os << json::Value(std::move(root));
    os.close();
    return 0;
}
