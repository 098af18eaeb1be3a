// irdump: reads LLVM IR/bitcode, writes a JSON rendering of every function and global for the Python abstract
// interpreter in /verif/lib. Pure front end: resolves types, GEP offsets, aggregate offsets and demangled names so
// that the interpreter only sees (base + constant + sum(index*scale)) addresses and byte-sized accesses.
#include <llvm/ADT/SmallString.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
using namespace llvm;
namespace
{
const DataLayout* DL;
std::map<const Value*, int> ids;

json::Value ty(Type* t)
{
    if (t->isIntegerTy()) return json::Array{"i", (int64_t) t->getIntegerBitWidth()};
    if (t->isDoubleTy()) return json::Array{"f", 64};
    if (t->isFloatTy()) return json::Array{"f", 32};
    if (t->isX86_FP80Ty()) return json::Array{"f", 80};
    if (t->isPointerTy()) return json::Array{"p", 64};
    if (t->isVoidTy()) return json::Array{"v"};
    if (auto* s = dyn_cast<StructType>(t))
    {
        json::Array el;
        const auto* sl = DL->getStructLayout(s);
        for (unsigned i = 0; i < s->getNumElements(); ++i)
            el.push_back(json::Array{(int64_t) sl->getElementOffset(i), ty(s->getElementType(i))});
        return json::Array{"s", (int64_t) DL->getTypeAllocSize(t), std::move(el)};
    }
    if (auto* a = dyn_cast<ArrayType>(t))
    {
        return json::Array{"a", (int64_t) a->getNumElements(), (int64_t) DL->getTypeAllocSize(a->getElementType()),
                           ty(a->getElementType())};
    }
    if (auto* a = dyn_cast<FixedVectorType>(t))
        return json::Array{"vec", (int64_t) a->getNumElements(), ty(a->getElementType())};
    return json::Array{"?"};
}
json::Value opnd(const Value* v);
json::Value cst(const Constant* c)
{
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        SmallString<40> s;
        ci->getValue().toStringUnsigned(s);
        return json::Object{{"k", "c"}, {"v", s.str().str()}, {"w", (int64_t) ci->getBitWidth()}};
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        APFloat f = cf->getValueAPF();
        bool    loses;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
        char buf[64];
        snprintf(buf, sizeof buf, "%a", f.convertToDouble());
        return json::Object{{"k", "f"}, {"v", std::string(buf)}};
    }
    if (isa<ConstantPointerNull>(c)) return json::Object{{"k", "n"}};
    if (isa<UndefValue>(c)) return json::Object{{"k", "u"}, {"t", ty(c->getType())}};
    if (auto* g = dyn_cast<GlobalValue>(c)) return json::Object{{"k", "g"}, {"v", g->getName().str()}, {"o", 0}};
    if (isa<ConstantAggregateZero>(c)) return json::Object{{"k", "z"}, {"t", ty(c->getType())}};
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        if (ce->getOpcode() == Instruction::GetElementPtr)
        {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off))
            {
                json::Value b = opnd(ce->getOperand(0));
                return json::Object{{"k", "ge"}, {"b", std::move(b)}, {"o", (int64_t) off.getSExtValue()}};
            }
        }
        json::Array ops;
        for (auto& o : ce->operands()) ops.push_back(opnd(o));
        return json::Object{{"k", "ce"}, {"op", ce->getOpcodeName()}, {"ops", std::move(ops)}, {"t", ty(ce->getType())}};
    }
    if (isa<ConstantDataSequential>(c) || isa<ConstantAggregate>(c))
    {
        json::Array el;
        unsigned    n = 0;
        if (auto* d = dyn_cast<ConstantDataSequential>(c))
        {
            n = d->getNumElements();
            for (unsigned i = 0; i < n; ++i) el.push_back(cst(d->getElementAsConstant(i)));
        }
        else
        {
            for (auto& o : c->operands()) el.push_back(cst(cast<Constant>(o)));
        }
        return json::Object{{"k", "agg"}, {"t", ty(c->getType())}, {"el", std::move(el)}};
    }
    return json::Object{{"k", "?"}};
}
json::Value opnd(const Value* v)
{
    if (auto* c = dyn_cast<Constant>(v)) return cst(c);
    auto it = ids.find(v);
    if (it != ids.end()) return json::Object{{"k", "v"}, {"v", it->second}};
    if (isa<MetadataAsValue>(v)) return json::Object{{"k", "md"}};
    return json::Object{{"k", "?"}};
}
}  // namespace

int main(int argc, char** argv)
{
    LLVMContext  ctx;
    SMDiagnostic err;
    auto         m = parseIRFile(argv[1], err, ctx);
    if (!m)
    {
        err.print("irdump", errs());
        return 2;
    }
    DL = &m->getDataLayout();
    json::OStream j(outs());
    j.objectBegin();
    j.attributeBegin("globals");
    j.objectBegin();
    for (auto& g : m->globals())
    {
        j.attributeBegin(g.getName());
        j.objectBegin();
        j.attribute("const", g.isConstant());
        j.attribute("tls", g.isThreadLocal());
        j.attribute("dem", demangle(g.getName().str()));
        j.attribute("t", ty(g.getValueType()));
        j.attribute("size", (int64_t) DL->getTypeAllocSize(g.getValueType()));
        if (g.hasInitializer()) j.attribute("init", cst(g.getInitializer()));
        j.objectEnd();
        j.attributeEnd();
    }
    j.objectEnd();
    j.attributeEnd();
    j.attributeBegin("functions");
    j.objectBegin();
    for (auto& f : *m)
    {
        j.attributeBegin(f.getName());
        j.objectBegin();
        j.attribute("dem", demangle(f.getName().str()));
        j.attribute("ret", ty(f.getReturnType()));
        j.attribute("nounwind", f.doesNotThrow());
        j.attribute("mem", f.doesNotAccessMemory() ? "none" : f.onlyReadsMemory() ? "read" : "rw");
        if (auto* sp = f.getSubprogram())
        {
            j.attribute("file", sp->getDirectory().str() + "|" + sp->getFilename().str());
            j.attribute("line", (int64_t) sp->getLine());
        }
        ids.clear();
        int n = 0;
        j.attributeBegin("args");
        j.arrayBegin();
        for (auto& a : f.args())
        {
            ids[&a] = n++;
            json::Array arr{ty(a.getType())};
            if (a.hasStructRetAttr()) arr.push_back("sret");
            else if (a.hasByValAttr()) arr.push_back(json::Array{"byval", (int64_t) DL->getTypeAllocSize(a.getParamByValType())});
            j.value(std::move(arr));
        }
        j.arrayEnd();
        j.attributeEnd();
        std::map<const BasicBlock*, int> bb;
        int                              k = 0;
        for (auto& b : f)
        {
            bb[&b] = k++;
            for (auto& i : b) ids[&i] = n++;
        }
        j.attributeBegin("blocks");
        j.arrayBegin();
        for (auto& b : f)
        {
            j.arrayBegin();
            for (auto& i : b)
            {
                if (isa<DbgInfoIntrinsic>(i)) continue;
                json::Object o;
                o["id"] = ids[&i];
                o["op"] = i.getOpcodeName();
                o["t"]  = ty(i.getType());
                if (const auto& dl = i.getDebugLoc())
                {
                    o["ln"] = (int64_t) dl.getLine();
                    if (auto* sc = dyn_cast_or_null<DIScope>(dl.getScope())) o["fl"] = sc->getFilename().str();
                }
                if (auto* gp = dyn_cast<GetElementPtrInst>(&i))
                {
                    o["b"] = opnd(gp->getPointerOperand());
                    MapVector<Value*, APInt> vo;
                    APInt                    co(64, 0);
                    json::Array              idx;
                    if (gp->collectOffset(*DL, 64, vo, co))
                    {
                        for (auto& [v, s] : vo)
                            idx.push_back(json::Array{opnd(v), (int64_t) s.getSExtValue(),
                                                      (int64_t) v->getType()->getIntegerBitWidth()});
                    }
                    else
                        o["bad"] = true;
                    o["o"]   = (int64_t) co.getSExtValue();
                    o["idx"] = std::move(idx);
                }
                else if (auto* cb = dyn_cast<CallBase>(&i))
                {
                    json::Array ops;
                    json::Array tys;
                    json::Array byv;
                    for (unsigned q = 0; q < cb->arg_size(); ++q)
                    {
                        ops.push_back(opnd(cb->getArgOperand(q)));
                        tys.push_back(ty(cb->getArgOperand(q)->getType()));
                        byv.push_back(cb->isByValArgument(q) ? (int64_t) DL->getTypeAllocSize(cb->getParamByValType(q)) :
                                                                (int64_t) -1);
                    }
                    o["ops"] = std::move(ops);
                    o["tys"] = std::move(tys);
                    o["byv"] = std::move(byv);
                    o["callee"] = cb->isInlineAsm() ? json::Value(json::Object{{"k", "asm"}}) : opnd(cb->getCalledOperand());
                    o["nounwind"] = cb->doesNotThrow();
                    if (auto* iv = dyn_cast<InvokeInst>(&i))
                    {
                        o["nd"] = bb[iv->getNormalDest()];
                        o["ud"] = bb[iv->getUnwindDest()];
                    }
                }
                else if (auto* ph = dyn_cast<PHINode>(&i))
                {
                    json::Array in;
                    for (unsigned q = 0; q < ph->getNumIncomingValues(); ++q)
                        in.push_back(json::Array{bb[ph->getIncomingBlock(q)], opnd(ph->getIncomingValue(q))});
                    o["in"] = std::move(in);
                }
                else if (auto* br = dyn_cast<BranchInst>(&i))
                {
                    json::Array s;
                    for (unsigned n = 0; n < br->getNumSuccessors(); ++n) s.push_back(bb[br->getSuccessor(n)]);
                    o["succ"] = std::move(s);
                    if (br->isConditional()) o["ops"] = json::Array{opnd(br->getCondition())};
                }
                else if (auto* sw = dyn_cast<SwitchInst>(&i))
                {
                    json::Array cs;
                    for (auto& c : sw->cases()) cs.push_back(json::Array{opnd(c.getCaseValue()), bb[c.getCaseSuccessor()]});
                    o["cases"] = std::move(cs);
                    o["def"]   = bb[sw->getDefaultDest()];
                    o["ops"]   = json::Array{opnd(sw->getCondition())};
                    o["ot"]    = ty(sw->getCondition()->getType());
                }
                else
                {
                    json::Array ops;
                    for (auto& q : i.operands()) ops.push_back(opnd(q));
                    o["ops"] = std::move(ops);
                    if (auto* c = dyn_cast<CmpInst>(&i)) o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                    if (auto* al = dyn_cast<AllocaInst>(&i))
                    {
                        o["size"] = (int64_t) DL->getTypeAllocSize(al->getAllocatedType());
                    }
                    if (auto* lp = dyn_cast<LandingPadInst>(&i))
                    {
                        json::Array cl;
                        for (unsigned q = 0; q < lp->getNumClauses(); ++q)
                            cl.push_back(json::Array{lp->isCatch(q) ? "catch" : "filter", opnd(lp->getClause(q))});
                        o["clauses"] = std::move(cl);
                        o["cleanup"] = lp->isCleanup();
                    }
                    if (auto* st = dyn_cast<StoreInst>(&i))
                    {
                        o["vt"] = ty(st->getValueOperand()->getType());
                        if (st->isAtomic()) o["atomic"] = true;
                    }
                    if (auto* ld = dyn_cast<LoadInst>(&i); ld && ld->isAtomic()) o["atomic"] = true;
                    if (auto* ev = dyn_cast<ExtractValueInst>(&i))
                    {
                        json::Array ix;
                        for (auto q : ev->indices()) ix.push_back((int64_t) q);
                        o["ix"] = std::move(ix);
                    }
                    if (auto* ev = dyn_cast<InsertValueInst>(&i))
                    {
                        json::Array ix;
                        for (auto q : ev->indices()) ix.push_back((int64_t) q);
                        o["ix"] = std::move(ix);
                    }
                    if (auto* rm = dyn_cast<AtomicRMWInst>(&i)) o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
                    if (i.getNumOperands() > 0) o["ot"] = ty(i.getOperand(0)->getType());
                    if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&i))
                    {
                        o["nsw"] = ob->hasNoSignedWrap();
                        o["nuw"] = ob->hasNoUnsignedWrap();
                    }
                }
                j.value(std::move(o));
            }
            j.arrayEnd();
        }
        j.arrayEnd();
        j.attributeEnd();
        j.objectEnd();
        j.attributeEnd();
    }
    j.objectEnd();
    j.attributeEnd();
    j.attributeBegin("aliases");
    j.objectBegin();
    for (auto& a : m->aliases())
        if (auto* t = dyn_cast<GlobalValue>(a.getAliasee()->stripPointerCasts())) j.attribute(a.getName(), t->getName());
    j.objectEnd();
    j.attributeEnd();
    j.objectEnd();
    return 0;
}
