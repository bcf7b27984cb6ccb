enum { B_NONE, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_MEMCPY, B_MEMSET, B_ABORT, B_EXIT, B_SYM, B_ASSUME, B_ASSERT, B_REACH, B_CONC, B_HBYTES, B_HCOUNT, B_ISSYM, B_OUT, B_FMTD, B_STRTOD, B_NOP, B_VASTART, B_VACOPY,
  B_SQRT, B_FLOOR, B_CEIL, B_ROUND, B_TRUNC, B_FABS, B_UF, B_VALIDP, B_FAIL, B_OBJSIZE, B_CUTOFF, B_STR };
static std::map<std::string,int> BI = { {"malloc",B_MALLOC},{"calloc",B_CALLOC},{"realloc",B_REALLOC},{"free",B_FREE},{"memcpy",B_MEMCPY},{"memmove",B_MEMCPY},{"memset",B_MEMSET},
  {"abort",B_ABORT},{"__assert_fail",B_ABORT},{"exit",B_EXIT},{"_exit",B_EXIT},{"__vf_sym",B_SYM},{"__vf_assume",B_ASSUME},{"__vf_assert",B_ASSERT},{"__vf_reach",B_REACH},{"__vf_conc",B_CONC},{"__vf_heap_bytes",B_HBYTES},{"__vf_heap_count",B_HCOUNT},
  {"__vf_is_sym",B_ISSYM},{"__vf_out",B_OUT},{"__vf_fmt_double",B_FMTD},{"__vf_strtod",B_STRTOD},{"__vf_valid",B_VALIDP},{"__vf_fail",B_FAIL},{"__vf_cutoff",B_CUTOFF},{"__vf_str_ok",B_STR},
  {"sqrt",B_SQRT},{"sqrtf",B_SQRT},{"floor",B_FLOOR},{"floorf",B_FLOOR},{"ceil",B_CEIL},{"ceilf",B_CEIL},{"round",B_ROUND},{"roundf",B_ROUND},{"trunc",B_TRUNC},{"truncf",B_TRUNC},{"fabs",B_FABS},{"fabsf",B_FABS} };
static const char* UFN[]={"sinf","cosf","tanf","asinf","acosf","atanf","atan2f","powf","expf","logf","log2f","log10f","fmodf","sin","cos","tan","asin","acos","atan","atan2","pow","exp","log","log2","log10","fmod","exp2f","cbrtf","hypotf","sinhf","coshf","tanhf"};
static int builtinId(const std::string& n0){ std::string n=n0; if (n.compare(0,5,"llvm.")==0) {
    if (!n.compare(0,11,"llvm.memcpy")||!n.compare(0,12,"llvm.memmove")) return B_MEMCPY; if (!n.compare(0,11,"llvm.memset")) return B_MEMSET;
    if (n=="llvm.va_start") return B_VASTART; if (n=="llvm.va_copy") return B_VACOPY; if (!n.compare(0,9,"llvm.fabs")) return B_FABS; if (!n.compare(0,9,"llvm.sqrt")) return B_SQRT; if (!n.compare(0,10,"llvm.floor")) return B_FLOOR; if (!n.compare(0,9,"llvm.ceil")) return B_CEIL;
    if (n=="llvm.va_end"||!n.compare(0,13,"llvm.lifetime")||!n.compare(0,8,"llvm.dbg")||n=="llvm.assume"||!n.compare(0,17,"llvm.experimental")||n=="llvm.donothing") return B_NOP; if (n=="llvm.trap") return B_ABORT; return B_NONE; }
  auto it=BI.find(n); if (it!=BI.end()) return it->second; for (auto* u:UFN) if (n==u) return B_UF; return B_NONE; }
static double callUF(const std::string& n,double a,double b,bool f){
#define U1(N) if (n==#N) return N(a); if (n==#N "f") return N##f((float)a);
#define U2(N) if (n==#N) return N(a,b); if (n==#N "f") return N##f((float)a,(float)b);
  U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U2(atan2) U2(pow) U1(exp) U1(log) U1(log2) U1(log10) U2(fmod) U1(exp2) U1(cbrt) U2(hypot) U1(sinh) U1(cosh) U1(tanh)
  return 0; }
static inline Val opv(State& s, Frame& f, const Opd& o, unsigned w){ if (o.reg>=0) return f.r[o.reg]; if (o.reg==-2) { if (OPT_uninit&&!OPT_concrete) return Val(mkVar("undef",w,true)); return Val((uint64_t)0); } return o.v; }
static void pushFrame(State& s, FInfo* fi, const Ins* site){ if (s.st.size()>=OPT_maxdepth) { recordViolation(s,"recursion","call stack deeper than "+std::to_string(OPT_maxdepth),s.model); throw PathEnd{1}; }
  s.st.emplace_back(); Frame& f=s.st.back(); f.f=fi; f.bb=fi->bbs[0].get(); f.prev=nullptr; f.ip=0; f.r.resize(fi->nregs); f.site=site; fi->calls++; f.bb->hits++; }
static Val binop(State& s, EK k, const Val& a, const Val& b, unsigned w){ if (!a.e&&!b.e) return Val(foldBin(k,a.c,b.c,w)); return Val(mkBin(k,toE(a,w),toE(b,w))); }
static Val unop(EK k, const Val& a, unsigned aw, unsigned w, uint64_t val=0){ if (!a.e) return Val(foldUn(k,a.c,aw,w,val)); return Val(mkUn(k,a.e,w,val)); }
static void jump(State& s, Frame& f, BInfo* t){ f.prev=f.bb; f.bb=t; f.ip=0; t->hits++;
  // phis are evaluated simultaneously
  unsigned n=0; while (n<t->ins.size()&&t->ins[n].op==Instruction::PHI) n++; if (!n) return;
  std::vector<Val> vs(n); for (unsigned i=0;i<n;i++){ Ins& x=t->ins[i]; for (unsigned j=0;j<x.bbs.size();j++) if (x.bbs[j]==f.prev){ vs[i]=opv(s,f,x.ops[j],x.w); break; } }
  for (unsigned i=0;i<n;i++) f.r[t->ins[i].dst]=vs[i]; f.ip=n; }
// two-way decision on a width-1 expression. Returns the value for s; forks the other side if feasible.
static bool decide(State& s, E c, const char* what) {
  auto it=s.known.find(c); if (it!=s.known.end()) return it->second;
  bool v=evalE(c,*s.model); E side=v?c:mkNot(c), oth=v?mkNot(c):c; std::shared_ptr<Model> m; R r=feasible(s,oth,&m);
  if (r==UNK) { incomplete(s,std::string("solver-unknown(")+what+")"); addc(s,side,s.model); return v; }
  if (r==SAT) { if (OPT_uninit&&c->taint) checkTaint(s,c,what); State* o=forkState(s); addc(*o,oth,m); addc(s,side,s.model); }
  else s.known[c]=v;
  return v; }
static void doRet(State& s, bool has, Val v) { Frame& f=s.st.back(); for (auto a:f.al) s.mem.drop(a>>SLOT);
  const Ins* site=f.site; s.st.pop_back(); if (s.st.empty()) throw PathEnd{0}; Frame& g=s.st.back(); if (site&&site->dst>=0&&has) { if (!v.e&&site->w) v.c&=maskw(site->w); g.r[site->dst]=v; } g.ip++; }
static void builtin(State& s, Frame& f, const Ins& x, int id, const std::string& name, std::vector<Val>& a) {
  auto setr=[&](Val v){ if (x.dst>=0) f.r[x.dst]=v; };
  switch(id) {
  case B_NOP: break;
  case B_MALLOC: { uint64_t n=conc(s,a[0],64); if (n>=SLOTSZ) { recordViolation(s,"memory","huge allocation",s.model); throw PathEnd{1}; } setr(Val(s.mem.alloc(n,1,true)->base)); break; }
  case B_CALLOC: { uint64_t n=conc(s,a[0],64), m=conc(s,a[1],64); if (n>=SLOTSZ||m>=SLOTSZ||n*m>=SLOTSZ) { recordViolation(s,"memory","huge allocation",s.model); throw PathEnd{1}; } setr(Val(s.mem.alloc(n*m,1,false)->base)); break; }
  case B_REALLOC: { uint64_t p=conc(s,a[0],64), n=conc(s,a[1],64); if (n>=SLOTSZ) { recordViolation(s,"memory","huge allocation",s.model); throw PathEnd{1}; } if (!p){ setr(Val(s.mem.alloc(n,1,true)->base)); break; }
    Obj* o=s.mem.get(p>>SLOT); if (!o||o->kind!=1||p!=o->base||o->freed) freeObj(s,p,"realloc"); uint64_t k=std::min(n,o->size); ObjP q=s.mem.alloc(n,1,true); copyMem(s,Val(q->base),Val(p),k,"realloc"); freeObj(s,p,"realloc"); setr(Val(q->base)); break; }
  case B_FREE: { uint64_t p=conc(s,a[0],64); freeObj(s,p,"free"); break; }
  case B_MEMCPY: { uint64_t n=conc(s,a[2],64); copyMem(s,a[0],a[1],n,name.find("memmove")!=std::string::npos?"memmove":"memcpy"); setr(a[0]); break; }
  case B_MEMSET: { uint64_t n=conc(s,a[2],64); if (n){ uint64_t off; Obj* o=resolve(s,a[0],n,off,true,"memset"); Val v=a[1]; if (v.e) v=Val(mkExtract(v.e,0,8)); for (uint64_t i=0;i<n;i++) storeAt(o,off+i,v,8); } setr(a[0]); break; }
  case B_ABORT: recordViolation(s,"abort",name+"() reached",s.model); throw PathEnd{1};
  case B_EXIT: recordViolation(s,"exit","exit() reached",s.model); throw PathEnd{1};
  case B_FAIL: recordViolation(s,"assert",cstr(s,conc(s,a[0],64)),s.model); throw PathEnd{1};
  case B_CUTOFF: incomplete(s,"cutoff "+cstr(s,conc(s,a[0],64))); throw PathEnd{2};
  case B_SYM: { unsigned w=conc(s,a[0],32); std::string nm=cstr(s,conc(s,a[1],64)); unsigned k=s.syms.size();
     if (OPT_concrete) { uint64_t v=k<OPT_forced.size()?OPT_forced[k]:0; s.syms.push_back({0,w,mkConst(v,w)}); setr(Val(v&maskw(w))); break; }
     // variables are shared between paths by (index,name,width) so query caching works
     static std::map<std::tuple<unsigned,std::string,unsigned>,E> pool; auto key=std::make_tuple(k,nm,w); auto it=pool.find(key); E v= it==pool.end()? (pool[key]=mkVar(nm,w,false)) : it->second;
     s.syms.push_back({(uint32_t)v->val,w,v}); setr(Val(mkZExt(v,64))); break; }
  case B_ASSUME: { Val c=a[0]; if (!c.e) { if (!(c.c&maskw(32))) { S_infeasible++; throw PathEnd{3}; } break; } E e=mkNot(mkBin(KEq,c.e,mkConst(0,c.e->w))); std::shared_ptr<Model> m; R r=feasible(s,e,&m); if (r==UNK) { incomplete(s,"solver-unknown(assume)"); throw PathEnd{2}; } if (r==UNSAT) { S_infeasible++; throw PathEnd{3}; } addc(s,e,m); break; }
  case B_ASSERT: { S_assert++; Val c=a[0]; if (!c.e) { if (!(c.c&maskw(32))) { recordViolation(s,"assert",cstr(s,conc(s,a[1],64)),s.model); throw PathEnd{1}; } break; }
     E e=mkNot(mkBin(KEq,c.e,mkConst(0,c.e->w))); if (e->k==KConst&&e->val) break; S_assertq++; std::shared_ptr<Model> m; R r=feasible(s,mkNot(e),&m);
     if (r==SAT) { recordViolation(s,"assert",cstr(s,conc(s,a[1],64)),m,e->taint); R r2=feasible(s,e,&m); if (r2!=SAT) throw PathEnd{1}; addc(s,e,m); }
     else if (r==UNK) incomplete(s,"solver-unknown(assert)"); else if (e->k!=KConst) s.known[e]=1; break; }
  case B_REACH: REACH[cstr(s,conc(s,a[0],64))]++; break;
  case B_CONC: setr(Val(conc(s,a[0],64))); break;
  case B_HBYTES: setr(Val(s.mem.liveBytes)); break;
  case B_HCOUNT: setr(Val(s.mem.liveCount)); break;
  case B_ISSYM: setr(Val((uint64_t)(a[0].e!=nullptr))); break;
  case B_OUT: s.outs.push_back({a[0].e,a[0].c}); break;
  case B_VALIDP: { uint64_t p=conc(s,a[0],64); Obj* o=s.mem.get(p>>SLOT); setr(Val((uint64_t)(o&&!o->freed&&p-o->base<=o->size))); break; }
  case B_STR: { uint64_t off; resolve(s,a[0],1,off,false,"%s argument"); break; }
  case B_FMTD: { uint64_t buf=conc(s,a[0],64); std::string fmt=cstr(s,conc(s,a[1],64)); char tmp[512]; if (a[2].e) { incomplete(s,"formatting a symbolic float"); throw PathEnd{2}; } double d; memcpy(&d,&a[2].c,8); int n=snprintf(tmp,sizeof tmp,fmt.c_str(),d); for (int i=0;i<=n&&i<511;i++) store(s,Val(buf+i),Val((uint64_t)(uint8_t)tmp[i]),8); setr(Val((uint64_t)(uint32_t)n)); break; }
  case B_STRTOD: { uint64_t p=conc(s,a[0],64); std::string t=cstr(s,p); char* end; float fl=strtof(t.c_str(),&end); uint64_t endp=conc(s,a[1],64); if (endp) store(s,Val(endp),Val((uint64_t)(p+(end-t.c_str()))),64); uint32_t b; memcpy(&b,&fl,4); setr(Val((uint64_t)b)); break; }
  case B_SQRT: setr(unop(KFSqrt,a[0],x.w,x.w)); break;
  case B_FLOOR: setr(unop(KFRti,a[0],x.w,x.w,0)); break; case B_CEIL: setr(unop(KFRti,a[0],x.w,x.w,1)); break;
  case B_ROUND: setr(unop(KFRti,a[0],x.w,x.w,2)); break; case B_TRUNC: setr(unop(KFRti,a[0],x.w,x.w,3)); break;
  case B_FABS: setr(binop(s,KAnd,a[0],Val(maskw(x.w-1)),x.w)); break;
  case B_UF: { bool sym=false; for (auto& v:a) if (v.e) sym=true; unsigned w=x.w;
     auto dbl=[&](const Val& v){ if (w==32){ uint32_t b=v.c; float q; memcpy(&q,&b,4); return (double)q; } double q; memcpy(&q,&v.c,8); return q; };
     if (!sym) { double r=callUF(name,dbl(a[0]),a.size()>1?dbl(a[1]):0,w==32); if (w==32){ float q=(float)r; uint32_t b; memcpy(&b,&q,4); setr(Val((uint64_t)b)); } else { uint64_t b; memcpy(&b,&r,8); setr(Val(b)); } break; }
     static std::map<std::tuple<std::string,E,E>,E> uf; auto key=std::make_tuple(name,toE(a[0],w),a.size()>1?toE(a[1],w):nullptr); auto it=uf.find(key); E v= it==uf.end()? (uf[key]=mkVar(name,w,false,true)) : it->second; setr(Val(v)); break; }
  case B_VASTART: { // SysV va_list: everything in the overflow area
     uint64_t ap=conc(s,a[0],64); uint64_t n=f.va.size(); ObjP o=s.mem.alloc(n*8+8,2,false); f.al.push_back(o->base); for (uint64_t i=0;i<n;i++) { Val v=f.va[i].first; unsigned w=f.va[i].second; storeAt(o.get(),i*8,v,w); }
     store(s,Val(ap),Val((uint64_t)48),32); store(s,Val(ap+4),Val((uint64_t)304),32); store(s,Val(ap+8),Val(o->base),64); store(s,Val(ap+16),Val((uint64_t)0),64); break; }
  case B_VACOPY: copyMem(s,a[0],a[1],24,"va_copy"); break;
  default: incomplete(s,"unmodelled function "+name); throw PathEnd{2};
  }
}
static void step(State& s) {
  Frame& f=s.st.back(); const Ins& x=f.bb->ins[f.ip];
  auto V=[&](unsigned i,unsigned w)->Val{ return opv(s,f,x.ops[i],w); };
  switch(x.op) {
  case Instruction::Add: f.r[x.dst]=binop(s,KAdd,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::Sub: f.r[x.dst]=binop(s,KSub,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::Mul: f.r[x.dst]=binop(s,KMul,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val a=V(0,x.w), b=V(1,x.w); bool sg=x.op==Instruction::SDiv||x.op==Instruction::SRem;
    E z=mkBin(KEq,toE(b,x.w),mkConst(0,x.w)); if (sg) z=mkBin(KOr,z,mkBin(KAnd,mkBin(KEq,toE(b,x.w),mkConst(~0ull,x.w)),mkBin(KEq,toE(a,x.w),mkConst(1ull<<(x.w-1),x.w))));
    if (z->k==KConst) { if (z->val) { recordViolation(s,"arith","division by zero or overflow",s.model); throw PathEnd{1}; } }
    else if (decide(s,z,"division")) { recordViolation(s,"arith","division by zero or overflow",s.model); throw PathEnd{1}; }
    EK k= x.op==Instruction::UDiv?KUDiv:x.op==Instruction::SDiv?KSDiv:x.op==Instruction::URem?KURem:KSRem; f.r[x.dst]=binop(s,k,a,b,x.w); break; }
  case Instruction::And: f.r[x.dst]=binop(s,KAnd,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::Or: f.r[x.dst]=binop(s,KOr,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::Xor: f.r[x.dst]=binop(s,KXor,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: { // x86 semantics for oversized shift counts (count taken modulo 32/64)
    Val a=V(0,x.w), b=V(1,x.w); if (x.w==32||x.w==64) b=binop(s,KAnd,b,Val((uint64_t)(x.w-1)),x.w); f.r[x.dst]=binop(s,x.op==Instruction::Shl?KShl:x.op==Instruction::LShr?KLShr:KAShr,a,b,x.w); break; }
  case Instruction::FAdd: f.r[x.dst]=binop(s,KFAdd,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::FSub: f.r[x.dst]=binop(s,KFSub,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::FMul: f.r[x.dst]=binop(s,KFMul,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::FDiv: f.r[x.dst]=binop(s,KFDiv,V(0,x.w),V(1,x.w),x.w); break;
  case Instruction::FNeg: f.r[x.dst]=binop(s,KXor,V(0,x.w),Val(1ull<<(x.w-1)),x.w); break;
  case Instruction::ICmp: { Val a=V(0,x.aw), b=V(1,x.aw); unsigned w=x.aw; Val r;
    switch(x.pred){ case CmpInst::ICMP_EQ: r=binop(s,KEq,a,b,w); break; case CmpInst::ICMP_NE: r=binop(s,KEq,a,b,w); r= r.e?Val(mkNot(r.e)):Val((uint64_t)!r.c); break;
      case CmpInst::ICMP_ULT: r=binop(s,KUlt,a,b,w); break; case CmpInst::ICMP_ULE: r=binop(s,KUle,a,b,w); break; case CmpInst::ICMP_UGT: r=binop(s,KUlt,b,a,w); break; case CmpInst::ICMP_UGE: r=binop(s,KUle,b,a,w); break;
      case CmpInst::ICMP_SLT: r=binop(s,KSlt,a,b,w); break; case CmpInst::ICMP_SLE: r=binop(s,KSle,a,b,w); break; case CmpInst::ICMP_SGT: r=binop(s,KSlt,b,a,w); break; default: r=binop(s,KSle,b,a,w); }
    f.r[x.dst]=r; break; }
  case Instruction::FCmp: { Val a=V(0,x.aw), b=V(1,x.aw); unsigned w=x.aw; auto N=[&](Val v){ return v.e?Val(mkNot(v.e)):Val((uint64_t)!v.c); }; auto O=[&](Val p,Val q){ return binop(s,KOr,p,q,1); }; auto A=[&](Val p,Val q){ return binop(s,KAnd,p,q,1); };
    Val r; switch(x.pred){ case CmpInst::FCMP_OEQ: r=binop(s,KFOeq,a,b,w); break; case CmpInst::FCMP_OLT: r=binop(s,KFOlt,a,b,w); break; case CmpInst::FCMP_OLE: r=binop(s,KFOle,a,b,w); break; case CmpInst::FCMP_OGT: r=binop(s,KFOlt,b,a,w); break; case CmpInst::FCMP_OGE: r=binop(s,KFOle,b,a,w); break;
      case CmpInst::FCMP_ONE: r=A(N(binop(s,KFUno,a,b,w)),N(binop(s,KFOeq,a,b,w))); break; case CmpInst::FCMP_ORD: r=N(binop(s,KFUno,a,b,w)); break; case CmpInst::FCMP_UNO: r=binop(s,KFUno,a,b,w); break; case CmpInst::FCMP_UEQ: r=O(binop(s,KFUno,a,b,w),binop(s,KFOeq,a,b,w)); break;
      case CmpInst::FCMP_UNE: r=N(binop(s,KFOeq,a,b,w)); break; case CmpInst::FCMP_ULT: r=N(binop(s,KFOle,b,a,w)); break; case CmpInst::FCMP_ULE: r=N(binop(s,KFOlt,b,a,w)); break; case CmpInst::FCMP_UGT: r=N(binop(s,KFOle,a,b,w)); break; case CmpInst::FCMP_UGE: r=N(binop(s,KFOlt,a,b,w)); break; case CmpInst::FCMP_TRUE: r=Val((uint64_t)1); break; default: r=Val((uint64_t)0); }
    f.r[x.dst]=r; break; }
  case Instruction::Trunc: { Val a=V(0,x.aw); f.r[x.dst]= a.e?Val(mkExtract(a.e,0,x.w)):Val(a.c&maskw(x.w)); break; }
  case Instruction::ZExt: { Val a=V(0,x.aw); f.r[x.dst]= a.e?Val(mkZExt(a.e,x.w)):Val(a.c&maskw(x.aw)); break; }
  case Instruction::SExt: { Val a=V(0,x.aw); f.r[x.dst]= a.e?Val(mkSExt(a.e,x.w)):Val((uint64_t)sx(a.c,x.aw)&maskw(x.w)); break; }
  case Instruction::FPExt: f.r[x.dst]=unop(KFExt,V(0,x.aw),x.aw,x.w); break;
  case Instruction::FPTrunc: f.r[x.dst]=unop(KFTrunc,V(0,x.aw),x.aw,x.w); break;
  case Instruction::SIToFP: f.r[x.dst]=unop(KSIToFP,V(0,x.aw),x.aw,x.w); break;
  case Instruction::UIToFP: f.r[x.dst]=unop(KUIToFP,V(0,x.aw),x.aw,x.w); break;
  case Instruction::FPToSI: { unsigned w=x.w<32?32:x.w; Val r=unop(KFPToSI,V(0,x.aw),x.aw,w); if (w!=x.w) r= r.e?Val(mkExtract(r.e,0,x.w)):Val(r.c&maskw(x.w)); f.r[x.dst]=r; break; }
  case Instruction::FPToUI: { if (x.w==64) { f.r[x.dst]=unop(KFPToUI,V(0,x.aw),x.aw,64); break; } unsigned w= x.w<32?32:64; Val r=unop(KFPToSI,V(0,x.aw),x.aw,w); f.r[x.dst]= r.e?Val(mkExtract(r.e,0,x.w)):Val(r.c&maskw(x.w)); break; }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val a=V(0,x.aw); if (x.w<x.aw) a= a.e?Val(mkExtract(a.e,0,x.w)):Val(a.c&maskw(x.w)); else if (x.w>x.aw&&a.e) a=Val(mkZExt(a.e,x.w)); f.r[x.dst]=a; break; }
  case Instruction::Freeze: f.r[x.dst]=V(0,x.w); break;
  case Instruction::Select: { Val c=V(0,1); if (!c.e) f.r[x.dst]=c.c&1?V(1,x.w):V(2,x.w); else { Val a=V(1,x.w), b=V(2,x.w); f.r[x.dst]=Val(mkIte(c.e,toE(a,x.w),toE(b,x.w))); } break; }
  case Instruction::Alloca: { uint64_t n=conc(s,V(0,x.aw),x.aw); if (n*x.off>=SLOTSZ) { incomplete(s,"huge alloca"); throw PathEnd{2}; } ObjP o=s.mem.alloc(n*x.off,2,true); f.al.push_back(o->base); f.r[x.dst]=Val(o->base); break; }
  case Instruction::ExtractValue: { auto* ev=cast<ExtractValueInst>(x.I); unsigned n,k=aggFirst(ev->getAggregateOperand()->getType(),ev->getIndices(),n); auto& g=AGG[V(0,0).c]; if (!x.w) { std::vector<Val> o(g.begin()+k,g.begin()+k+n); f.r[x.dst]=Val((uint64_t)AGG.size()); AGG.push_back(o); } else f.r[x.dst]=g[k]; break; }
  case Instruction::InsertValue: { auto* iv=cast<InsertValueInst>(x.I); unsigned n,k=aggFirst(iv->getType(),iv->getIndices(),n); std::vector<Val> o=AGG[V(0,0).c]; Type* et=iv->getInsertedValueOperand()->getType(); if (et->isAggregateType()) { auto& g=AGG[V(1,0).c]; for (unsigned i=0;i<n;i++) o[k+i]=g[i]; } else o[k]=V(1,widthOf(et)); f.r[x.dst]=Val((uint64_t)AGG.size()); AGG.push_back(o); break; }
  case Instruction::ExtractElement: { Type* t=x.I->getOperand(0)->getType(); unsigned vw=widthOf(t), i=(unsigned)conc(s,V(1,32),32); Val a=V(0,vw); f.r[x.dst]= a.e?Val(mkExtract(a.e,i*x.w,x.w)):Val((a.c>>(i*x.w))&maskw(x.w)); break; }
  case Instruction::InsertElement: { unsigned ew=widthOf(x.I->getOperand(1)->getType()), i=(unsigned)conc(s,V(2,32),32); Val a=V(0,x.w), b=V(1,ew); uint64_t m=maskw(ew)<<(i*ew); Val bb= b.e?Val(mkBin(KShl,mkZExt(b.e,x.w),mkConst(i*ew,x.w))):Val(b.c<<(i*ew)); f.r[x.dst]=binop(s,KOr,binop(s,KAnd,a,Val(~m&maskw(x.w)),x.w),bb,x.w); break; }
  case Instruction::Load: if (x.I->getType()->isAggregateType()) { std::vector<std::pair<uint64_t,unsigned>> l; aggLeaves(x.I->getType(),0,l); Val p=V(0,64); uint64_t b=conc(s,p,64); std::vector<Val> o; for (auto& q:l) o.push_back(load(s,Val(b+q.first),q.second)); f.r[x.dst]=Val((uint64_t)AGG.size()); AGG.push_back(o); break; }
    f.r[x.dst]=load(s,V(0,64),x.w); break;
  case Instruction::Store: { if (x.I->getOperand(0)->getType()->isAggregateType()) { std::vector<std::pair<uint64_t,unsigned>> l; aggLeaves(x.I->getOperand(0)->getType(),0,l); uint64_t b=conc(s,V(1,64),64); auto g=AGG[V(0,0).c]; for (unsigned i=0;i<l.size();i++) store(s,Val(b+l[i].first),g[i],l[i].second); break; } Val v=V(0,x.aw), p=V(1,64); store(s,p,v,x.aw); break; }
  case Instruction::GetElementPtr: { Val p=V(0,64); uint64_t off=x.off; E se=nullptr;
    for (auto& g:x.gi) { Val i=opv(s,f,g.o,g.w); if (!i.e) off+=(uint64_t)sx(i.c,g.w)*g.scale; else { E t=mkBin(KMul,mkSExt(i.e,64),mkConst(g.scale,64)); se=se?mkBin(KAdd,se,t):t; } }
    if (!p.e&&!se) f.r[x.dst]=Val(p.c+off); else { E r=toE(p,64); if (se) r=mkBin(KAdd,se,r); r=mkBin(KAdd,r,mkConst(off,64)); f.r[x.dst]=Val(r); } break; }
  case Instruction::Br: { if (x.ops.empty()) { jump(s,f,x.bbs[0]); return; } Val c=V(0,1); bool t= c.e? decide(s,c.e,"branch") : (c.c&1); jump(s,f,t?x.bbs[0]:x.bbs[1]); return; }
  case Instruction::Switch: { Val c=V(0,x.aw); if (!c.e) { BInfo* t=x.bbs[0]; for (unsigned i=0;i<x.cases.size();i++) if (x.cases[i]==(c.c&maskw(x.aw))) { t=x.bbs[i+1]; break; } jump(s,f,t); return; }
    for (unsigned i=0;i<x.cases.size();i++) { E e=mkBin(KEq,c.e,mkConst(x.cases[i],x.aw)); bool t= e->k==KConst? e->val : decide(s,e,"switch"); if (t) { jump(s,f,x.bbs[i+1]); return; } } jump(s,f,x.bbs[0]); return; }
  case Instruction::Ret: if (x.ops.empty()) doRet(s,false,Val()); else { Val v=V(0,x.aw); doRet(s,true,v); } return;
  case Instruction::Unreachable: recordViolation(s,"abort","unreachable executed",s.model); throw PathEnd{1};
  case Instruction::Call: {
    std::vector<Val> a; Function* cal=x.callee; unsigned n=x.ops.size()-(cal?0:1); for (unsigned i=0;i<n;i++) a.push_back(x.aws[i]?opv(s,f,x.ops[i],x.aws[i]):Val());
    if (!cal) { Val p=opv(s,f,x.ops[n],64); if (p.e) checkTaint(s,p.e,"function pointer"); uint64_t ad=conc(s,p,64); uint64_t ix=(ad-FBASE)/16; if (ad<FBASE||(ad&15)||ix>=FADDR.size()) { recordViolation(s,"memory",ad?"call through invalid function pointer":"call through null function pointer",s.model); throw PathEnd{1}; } cal=FADDR[ix]; }
    if (cal->isDeclaration()) { int id= x.callee? x.builtin : builtinId(cal->getName().str()); builtin(s,f,x,id,cal->getName().str(),a); break; }
    FInfo* fi=getFI(cal); unsigned np=cal->arg_size(); if (a.size()<np) { incomplete(s,"call arity mismatch"); throw PathEnd{2}; }
    std::vector<std::pair<Val,unsigned>> va; for (unsigned i=np;i<a.size();i++) va.push_back({a[i],x.aws[i]});
    pushFrame(s,fi,&x); Frame& g=s.st.back(); for (unsigned i=0;i<np;i++) g.r[i]=a[i]; g.va=va; return; }
  default: incomplete(s,std::string("unsupported instruction ")+x.I->getOpcodeName()); throw PathEnd{2};
  }
  s.st.back().ip++;
}
// ------------------------------------------------------------------ main
static std::string jesc(const std::string& s){ std::string r; for (unsigned char c:s){ if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }
struct Sample { std::vector<std::pair<std::string,std::pair<unsigned,uint64_t>>> vals; std::vector<uint64_t> outs; };
static std::vector<Sample> SAMPLES;
static void emit(const char* status, uint64_t remaining) {
  std::ostringstream o; double wall=secs(T0,Clock::now()); struct rusage ru; getrusage(RUSAGE_SELF,&ru);
  o<<"{\"status\":\""<<status<<"\",\"paths\":"<<S_paths<<",\"forks\":"<<S_forks<<",\"infeasible\":"<<S_infeasible<<",\"remaining\":"<<remaining<<",\"steps\":"<<S_steps<<",\"queries\":"<<S_q<<",\"sat\":"<<S_sat<<",\"unsat\":"<<S_unsat<<",\"unknown\":"<<S_unk<<",\"cache_hits\":"<<S_cache<<",\"asserts\":"<<S_assert<<",\"assert_queries\":"<<S_assertq<<",\"solver_s\":"<<S_solver<<",\"wall_s\":"<<wall<<",\"rss_mb\":"<<ru.ru_maxrss/1024;
  o<<",\"reach\":{"; bool c=false; for (auto& p:REACH){ if(c)o<<","; c=true; o<<"\""<<jesc(p.first)<<"\":"<<p.second; } o<<"}";
  o<<",\"incomplete\":{"; c=false; for (auto& p:INCOMPLETE){ if(c)o<<","; c=true; o<<"\""<<jesc(p.first)<<"\":"<<p.second; } o<<"}";
  o<<",\"functions\":["; c=false; for (auto& p:FI) if (p.second->isrepo&&p.second->calls) { uint64_t h=0; for (auto& b:p.second->bbs) if (b->hits) h++; if(c)o<<","; c=true; o<<"[\""<<jesc(p.first->getName().str())<<"\","<<h<<","<<p.second->bbs.size()<<","<<p.second->forks<<"]"; } o<<"]";
  o<<",\"violations\":["; c=false; for (auto& v:VIOL){ if(c)o<<","; c=true; o<<"{\"kind\":\""<<jesc(v.kind)<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"loc\":\""<<jesc(v.loc)<<"\",\"uninit\":"<<(v.uninit?"true":"false")<<",\"trace\":["; for (size_t i=0;i<v.trace.size()&&i<40;i++) o<<(i?",":"")<<"\""<<jesc(v.trace[i])<<"\""; o<<"],\"vals\":["; for (size_t i=0;i<v.vals.size();i++) o<<(i?",":"")<<"[\""<<jesc(v.vals[i].first)<<"\","<<v.vals[i].second.first<<",\""<<v.vals[i].second.second<<"\"]"; o<<"]}"; } o<<"]";
  o<<",\"samples\":["; c=false; for (auto& v:SAMPLES){ if(c)o<<","; c=true; o<<"{\"vals\":["; for (size_t i=0;i<v.vals.size();i++) o<<(i?",":"")<<"[\""<<jesc(v.vals[i].first)<<"\","<<v.vals[i].second.first<<",\""<<v.vals[i].second.second<<"\"]"; o<<"],\"outs\":["; for (size_t i=0;i<v.outs.size();i++) o<<(i?",":"")<<"\""<<v.outs[i]<<"\""; o<<"]}"; } o<<"]}\n";
  if (OPT_out.empty()) std::cout<<o.str(); else { std::ofstream f(OPT_out); f<<o.str(); }
}
static uint64_t rssMB(){ FILE* f=fopen("/proc/self/statm","r"); long a,b=0; if (f){ if (fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f);} return (uint64_t)b*4096/1048576; }
int main(int argc,char** argv) {
  std::string file; for (int i=1;i<argc;i++){ std::string a=argv[i]; auto val=[&](const char* p)->const char*{ size_t n=strlen(p); return a.compare(0,n,p)==0? a.c_str()+n : nullptr; }; const char* v;
    if ((v=val("-time="))) OPT_time=atof(v); else if ((v=val("-steps="))) OPT_steps=strtoull(v,0,10); else if ((v=val("-qms="))) OPT_qms=strtoull(v,0,10); else if ((v=val("-out="))) OPT_out=v; else if ((v=val("-entry="))) OPT_entry=v; else if ((v=val("-maxviol="))) OPT_maxviol=atoi(v); else if ((v=val("-maxenum="))) OPT_maxenum=atoi(v); else if ((v=val("-maxdepth="))) OPT_maxdepth=atoi(v); else if ((v=val("-mem="))) OPT_mem=strtoull(v,0,10); else if ((v=val("-repo="))) OPT_repo=v;
    else if (a=="-hang") OPT_hang=true; else if (a=="-nouninit") OPT_uninit=false; else if (a=="-v") OPT_verbose=true; else if ((v=val("-forced="))) { OPT_concrete=true; std::stringstream ss(v); std::string t; while (std::getline(ss,t,',')) OPT_forced.push_back(strtoull(t.c_str(),0,10)); } else file=a; }
  T0=Clock::now(); SMDiagnostic err; M=parseIRFile(file,err,CTX); if (!M) { err.print("vfsym",errs()); return 2; } DL=&M->getDataLayout();
  LW.init(); Z3_set_error_handler(LW.c,zerr); ZS=Z3_mk_simple_solver(LW.c); Z3_solver_inc_ref(LW.c,ZS);
  { Z3_context c=LW.c; Z3_solver q=Z3_mk_solver_for_logic(c,Z3_mk_string_symbol(c,"QF_BV")); Z3_solver_inc_ref(c,q); ZB=q; 
    const char* tn[]={"simplify","propagate-values","fpa2bv","propagate-values","simplify","bit-blast","simplify","sat"}; Z3_tactic t=nullptr; for (auto* n:tn){ Z3_tactic u=Z3_mk_tactic(c,n); Z3_tactic_inc_ref(c,u); if (!t) t=u; else { t=Z3_tactic_and_then(c,t,u); Z3_tactic_inc_ref(c,t); } }
    ZF=Z3_mk_solver_from_tactic(c,t); Z3_solver_inc_ref(c,ZF); setp(c,ZS,"rlimit",3000000); setp(c,ZB,"timeout",OPT_qms); setp(c,ZF,"timeout",OPT_qms); }
  Function* E0=M->getFunction(OPT_entry); if (!E0||E0->isDeclaration()) { fprintf(stderr,"no entry %s\n",OPT_entry.c_str()); return 2; }
  State* s0=new State(); s0->model=std::make_shared<Model>();
  for (auto& g:M->globals()) { if (!g.getValueType()->isSized()) continue; ObjP o=s0->mem.alloc(DL->getTypeAllocSize(g.getValueType()),0,false); GADDR[&g]=o->base; }
  for (auto& g:M->globals()) { auto it=GADDR.find(&g); if (it==GADDR.end()) continue; Obj* o=s0->mem.getW(it->second>>SLOT); if (g.hasInitializer()) writeInit(o,0,g.getInitializer()); o->ro=g.isConstant(); }
  pushFrame(*s0,getFI(E0),nullptr); WORK.push_back(s0); const char* status="complete"; uint64_t tick=0;
  while (!WORK.empty()&&!STOP) {
    State* s=WORK.back(); WORK.pop_back(); bool timeout=false;
    try { for(;;) { step(*s); S_steps++; if (++s->steps>OPT_steps) { if (OPT_hang) recordViolation(*s,"hang","path exceeds "+std::to_string(OPT_steps)+" instructions",s->model); else incomplete(*s,"step bound"); break; } if ((++tick&4095)==0) { if (secs(T0,Clock::now())>OPT_time) { timeout=true; break; } if ((tick&0xfffff)==0&&rssMB()>OPT_mem) { status="memout"; timeout=true; break; } } if (STOP) break; } }
    catch (std::exception& e) { incomplete(*s,std::string("engine: ")+e.what()); }
    catch (PathEnd& p) { if (p.why==0) { S_paths++; 
        bool take = SAMPLES.size()<8 || (S_paths%997==0&&SAMPLES.size()<16); if (take) { Sample sm; for (auto& r:s->syms) sm.vals.push_back({VARS[r.var].name,{r.w,evalE(r.e,*s->model)}}); bool uf=false; for (auto& o:s->outs) { if (o.first) for (auto v:varsOf(o.first)) if (VARS[v].uf||VARS[v].uninit) uf=true; sm.outs.push_back(o.first?evalE(o.first,*s->model):o.second); } for (E c:s->cons) for (auto v:varsOf(c)) if (VARS[v].uf||VARS[v].uninit) uf=true; if (!uf) SAMPLES.push_back(sm); } } }
    if (timeout) { if (strcmp(status,"memout")) status="timeout"; WORK.push_back(s); break; }
    delete s;
  }
  if (STOP) status="stopped";
  emit(status,WORK.size()); _exit(0);
}
