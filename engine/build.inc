static unsigned widthOf(Type* t){ if (t->isPointerTy()) return 64; if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isVoidTy()) return 0; if (auto* vt=dyn_cast<FixedVectorType>(t)) { uint64_t b=DL->getTypeSizeInBits(vt).getFixedValue(); if (b<=64) return (unsigned)b; } std::string s; raw_string_ostream o(s); t->print(o); fprintf(stderr,"unsupported type %s\n",o.str().c_str()); return 255; }
// first-class aggregates (struct returned by value): immutable flattened leaf lists, a register holds an index into AGG
static std::deque<std::vector<Val>> AGG;
static void aggLeaves(Type* t, uint64_t off, std::vector<std::pair<uint64_t,unsigned>>& out) { if (auto* st=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(st); for (unsigned i=0;i<st->getNumElements();i++) aggLeaves(st->getElementType(i),off+sl->getElementOffset(i),out); }
  else if (auto* a=dyn_cast<ArrayType>(t)) { uint64_t es=DL->getTypeAllocSize(a->getElementType()); for (unsigned i=0;i<a->getNumElements();i++) aggLeaves(a->getElementType(),off+i*es,out); } else out.push_back({off,widthOf(t)}); }
static unsigned aggFirst(Type* t, ArrayRef<unsigned> ix, unsigned& n) { unsigned k=0; for (unsigned i:ix) { std::vector<std::pair<uint64_t,unsigned>> l; for (unsigned j=0;j<i;j++) aggLeaves(isa<StructType>(t)?cast<StructType>(t)->getElementType(j):cast<ArrayType>(t)->getElementType(),0,l); k+=l.size(); t=isa<StructType>(t)?cast<StructType>(t)->getElementType(i):cast<ArrayType>(t)->getElementType(); } std::vector<std::pair<uint64_t,unsigned>> l; aggLeaves(t,0,l); n=l.size(); return k; }
static uint64_t faddr(Function* F){ auto it=FIDX.find(F); if (it!=FIDX.end()) return FBASE+16*it->second; FIDX[F]=FADDR.size(); FADDR.push_back(F); return FBASE+16*(FADDR.size()-1); }
static uint64_t constVal(const Constant* C) {
  if (auto* x=dyn_cast<ConstantInt>(C)) return x->getValue().getZExtValue();
  if (auto* x=dyn_cast<ConstantFP>(C)) return x->getValueAPF().bitcastToAPInt().getZExtValue();
  if (isa<ConstantPointerNull>(C)) return 0; if (isa<UndefValue>(C)) return 0; if (C->isNullValue()) return 0;
  if (auto* x=dyn_cast<GlobalVariable>(C)) { auto it=GADDR.find(x); if (it==GADDR.end()) { fprintf(stderr,"unresolved global %s\n",x->getName().str().c_str()); return 0; } return it->second; }
  if (auto* x=dyn_cast<Function>(C)) return faddr(const_cast<Function*>(x));
  if (auto* x=dyn_cast<GlobalAlias>(C)) return constVal(x->getAliasee());
  if (auto* x=dyn_cast<ConstantExpr>(C)) {
    unsigned op=x->getOpcode();
    if (op==Instruction::GetElementPtr) { APInt off(64,0); cast<GEPOperator>(x)->accumulateConstantOffset(*DL,off); return constVal(x->getOperand(0))+off.getSExtValue(); }
    if (op==Instruction::BitCast||op==Instruction::PtrToInt||op==Instruction::IntToPtr) return constVal(x->getOperand(0))&maskw(widthOf(x->getType()));
    if (op==Instruction::Sub) return (constVal(x->getOperand(0))-constVal(x->getOperand(1)))&maskw(widthOf(x->getType()));
    if (op==Instruction::Add) return (constVal(x->getOperand(0))+constVal(x->getOperand(1)))&maskw(widthOf(x->getType()));
    if (op==Instruction::Trunc) return constVal(x->getOperand(0))&maskw(widthOf(x->getType()));
  }
  std::string s; raw_string_ostream o(s); C->print(o); fprintf(stderr,"unsupported constant %s\n",o.str().c_str()); return 0;
}
static void writeInit(Obj* o, uint64_t off, const Constant* C) {
  Type* t=C->getType();
  if (isa<ConstantAggregateZero>(C)||isa<UndefValue>(C)) return;
  if (auto* d=dyn_cast<ConstantDataSequential>(C)) { uint64_t es=DL->getTypeAllocSize(d->getElementType()); for (unsigned i=0;i<d->getNumElements();i++) writeInit(o,off+i*es,d->getElementAsConstant(i)); return; }
  if (auto* a=dyn_cast<ConstantArray>(C)) { uint64_t es=DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i=0;i<a->getNumOperands();i++) writeInit(o,off+i*es,a->getOperand(i)); return; }
  if (auto* a=dyn_cast<ConstantStruct>(C)) { auto* sl=DL->getStructLayout(a->getType()); for (unsigned i=0;i<a->getNumOperands();i++) writeInit(o,off+sl->getElementOffset(i),a->getOperand(i)); return; }
  storeAt(o,off,Val(constVal(C)),widthOf(t));
}
static FInfo* getFI(Function* F);
static int builtinId(const std::string& n);
static void buildF(FInfo* f) {
  f->built=true; Function* F=f->F; std::map<const Value*,int> rn; std::map<const BasicBlock*,BInfo*> bm; int n=0;
  for (auto& a:F->args()) rn[&a]=n++;
  for (auto& B:*F) { auto b=std::make_unique<BInfo>(); b->f=f; b->idx=f->bbs.size(); bm[&B]=b.get(); f->bbs.push_back(std::move(b)); for (auto& I:B) if (!I.getType()->isVoidTy()) rn[&I]=n++; }
  f->nregs=n;
  auto opd=[&](Value* v)->Opd{ Opd o; auto it=rn.find(v); if (it!=rn.end()){ o.reg=it->second; return o; } o.reg=-1; if (auto* c=dyn_cast<Constant>(v)) { if (c->getType()->isAggregateType()) { std::vector<std::pair<uint64_t,unsigned>> l; aggLeaves(c->getType(),0,l); o.v=Val((uint64_t)AGG.size()); AGG.emplace_back(l.size()); } else if (isa<UndefValue>(c)) o.reg=-2; else o.v=Val(constVal(c)); } return o; };
  for (auto& B:*F) { BInfo* b=bm[&B];
    for (auto& I:B) {
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      Ins x; x.I=&I; x.op=I.getOpcode(); x.dst=I.getType()->isVoidTy()?-1:rn[&I]; x.w=(I.getType()->isVoidTy()||I.getType()->isAggregateType())?0:widthOf(I.getType()); x.aw=0;
      if (auto* g=dyn_cast<GetElementPtrInst>(&I)) {
        x.ops.push_back(opd(g->getPointerOperand())); int64_t off=0;
        for (auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it) { Value* ix=it.getOperand();
          if (StructType* st=it.getStructTypeOrNull()) off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t es=DL->getTypeAllocSize(it.getIndexedType()); if (auto* ci=dyn_cast<ConstantInt>(ix)) off+=es*ci->getSExtValue(); else x.gi.push_back({opd(ix),widthOf(ix->getType()),es}); } }
        x.off=off;
      } else if (auto* c=dyn_cast<CallInst>(&I)) {
        for (auto& a:c->args()) { x.ops.push_back(opd(a)); x.aws.push_back(a->getType()->isMetadataTy()||a->getType()->isAggregateType()?0:widthOf(a->getType())); }
        Value* cv=c->getCalledOperand()->stripPointerCasts(); if (auto* fn=dyn_cast<Function>(cv)) { x.callee=fn; if (fn->isDeclaration()) x.builtin=builtinId(fn->getName().str()); } else { x.ops.push_back(opd(cv)); x.aws.push_back(64); }
      } else if (auto* br=dyn_cast<BranchInst>(&I)) { if (br->isConditional()) x.ops.push_back(opd(br->getCondition())); for (unsigned i=0;i<br->getNumSuccessors();i++) x.bbs.push_back(bm[br->getSuccessor(i)]);
      } else if (auto* sw=dyn_cast<SwitchInst>(&I)) { x.ops.push_back(opd(sw->getCondition())); x.aw=widthOf(sw->getCondition()->getType()); x.bbs.push_back(bm[sw->getDefaultDest()]); for (auto& cs:sw->cases()) { x.cases.push_back(cs.getCaseValue()->getZExtValue()); x.bbs.push_back(bm[cs.getCaseSuccessor()]); }
      } else if (auto* ph=dyn_cast<PHINode>(&I)) { for (unsigned i=0;i<ph->getNumIncomingValues();i++){ x.ops.push_back(opd(ph->getIncomingValue(i))); x.bbs.push_back(bm[ph->getIncomingBlock(i)]); }
      } else if (auto* al=dyn_cast<AllocaInst>(&I)) { x.off=DL->getTypeAllocSize(al->getAllocatedType()); x.ops.push_back(opd(al->getArraySize())); x.aw=widthOf(al->getArraySize()->getType());
      } else { for (auto& o:I.operands()) x.ops.push_back(opd(o)); if (I.getNumOperands()) x.aw = I.getOperand(0)->getType()->isAggregateType()?0:widthOf(I.getOperand(0)->getType()); if (auto* c=dyn_cast<CmpInst>(&I)) x.pred=c->getPredicate(); }
      b->ins.push_back(std::move(x));
    } }
}
static FInfo* getFI(Function* F){ auto& p=FI[F]; if (!p){ p=std::make_unique<FInfo>(); p->F=F; if (auto* sp=F->getSubprogram()) { std::string fn=sp->getFilename().str(); if (fn.size()&&fn[0]!='/') fn=sp->getDirectory().str()+"/"+fn; p->file=fn; p->isrepo=fn.compare(0,OPT_repo.size(),OPT_repo)==0; } } if (!p->built) buildF(p.get()); return p.get(); }
