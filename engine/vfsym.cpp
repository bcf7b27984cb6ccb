// vfsym: path-forking symbolic executor for LLVM IR (bounded, exhaustive), Z3 back end.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <memory>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <functional>
#include <chrono>
#include <sstream>
#include <fstream>
#include <iostream>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
typedef std::chrono::steady_clock Clock;
static double secs(Clock::time_point a, Clock::time_point b){ return std::chrono::duration<double>(b-a).count(); }

// ------------------------------------------------------------------ options
static double OPT_time=60; static uint64_t OPT_steps=20000000; static uint64_t OPT_maxpaths=0; static uint64_t OPT_qms=20000; static unsigned OPT_maxenum=300;
static bool OPT_hang=false, OPT_uninit=true, OPT_verbose=false; static unsigned OPT_maxviol=6; static unsigned OPT_maxdepth=1500; static uint64_t OPT_mem=6000;
static std::string OPT_out, OPT_entry="vf_main"; static std::string OPT_repo="/repo/";
static std::vector<uint64_t> OPT_forced; static bool OPT_concrete=false;
static Clock::time_point T0;

// ------------------------------------------------------------------ values
struct Val { E e; uint64_t c; Val():e(nullptr),c(0){} Val(uint64_t x):e(nullptr),c(x){} Val(E x):e(x->k==KConst?nullptr:x),c(x->k==KConst?x->val:0){} };
static inline E toE(const Val& v, unsigned w){ return v.e? v.e : mkConst(v.c,w); }

// ------------------------------------------------------------------ memory
struct Obj {
  uint64_t base, size; uint8_t kind; /*0 global 1 heap 2 stack*/ bool ro=false, freed=false;
  std::vector<uint8_t> b; std::vector<E> s; std::vector<uint8_t> un; const char* site="";
};
typedef std::shared_ptr<Obj> ObjP;
static const unsigned SLOT=24; static const uint64_t SLOTSZ=1ull<<SLOT;
struct Chunk { ObjP o[64]; };
struct Page { std::shared_ptr<Chunk> c[64]; };
struct Mem {   // persistent three-level table, copy on write
  std::vector<std::shared_ptr<Page>> pg; uint64_t n=1;
  uint64_t liveBytes=0, liveCount=0;
  Obj* get(uint64_t id) const { uint64_t p=id>>12; if (p>=pg.size()||!pg[p]) return nullptr; auto& c=pg[p]->c[(id>>6)&63]; if (!c) return nullptr; return c->o[id&63].get(); }
  Chunk* chunkW(uint64_t id) { uint64_t p=id>>12; if (p>=pg.size()) pg.resize(p+1); if (!pg[p]) pg[p]=std::make_shared<Page>(); else if (pg[p].use_count()>1) pg[p]=std::make_shared<Page>(*pg[p]);
    auto& c=pg[p]->c[(id>>6)&63]; if (!c) c=std::make_shared<Chunk>(); else if (c.use_count()>1) c=std::make_shared<Chunk>(*c); return c.get(); }
  void set(uint64_t id, ObjP o) { chunkW(id)->o[id&63]=o; }
  void drop(uint64_t id) { Chunk* c=chunkW(id); c->o[id&63].reset(); for (auto& x:c->o) if (x) return; if ((id>>6)==(n>>6)) return; Page* p=pg[id>>12].get(); p->c[(id>>6)&63].reset(); for (auto& x:p->c) if (x) return; if ((id>>12)!=(n>>12)) pg[id>>12].reset(); }
  Obj* getW(uint64_t id) { Chunk* c=chunkW(id); ObjP& p=c->o[id&63]; if (p.use_count()>1) p=std::make_shared<Obj>(*p); return p.get(); }
  ObjP alloc(uint64_t size, uint8_t kind, bool uninit) { auto o=std::make_shared<Obj>(); uint64_t id=n++; o->base=id<<SLOT; o->size=size; o->kind=kind; o->b.resize(size,0); if (uninit&&size) o->un.assign(size,1); set(id,o); if(kind==1){liveBytes+=size;liveCount++;} return o; }
};
// ------------------------------------------------------------------ code
struct Opd { int reg; Val v; };     // reg>=0: register, else constant
struct Ins;
struct FInfo;
struct BInfo { FInfo* f; std::vector<Ins> ins; uint64_t hits=0; unsigned idx; };
struct GepIdx { Opd o; unsigned w; int64_t scale; };
struct Ins { unsigned op; const Instruction* I; int dst; unsigned w, aw; std::vector<Opd> ops; std::vector<BInfo*> bbs; int64_t off=0; std::vector<GepIdx> gi; unsigned pred=0; Function* callee=nullptr; FInfo* cfi=nullptr; int builtin=-1; std::vector<uint64_t> cases; std::vector<unsigned> aws; bool isfp=false; };
struct FInfo { Function* F; std::vector<std::unique_ptr<BInfo>> bbs; unsigned nregs=0; bool built=false; uint64_t calls=0; bool isrepo=false; std::string file; uint64_t forks=0, steps=0; };
struct Frame { FInfo* f; BInfo* bb; BInfo* prev; unsigned ip; std::vector<Val> r; std::vector<uint64_t> al; const Ins* site; std::vector<std::pair<Val,unsigned>> va; };
struct SymRec { uint32_t var; unsigned w; E e; };
struct State {
  std::vector<Frame> st; Mem mem; std::vector<E> cons; std::shared_ptr<Model> model; std::unordered_map<E,uint64_t> known; std::vector<SymRec> syms; uint64_t steps=0; unsigned depth=0; std::vector<std::string> notes; uint64_t ufk=0;
  std::unordered_map<E,unsigned> enumc; std::vector<std::pair<E,uint64_t>> outs;
};
static LLVMContext CTX; static std::unique_ptr<Module> M; static const DataLayout* DL;
static std::map<const Function*,std::unique_ptr<FInfo>> FI; static std::vector<Function*> FADDR; static std::map<const Function*,uint64_t> FIDX; static std::map<const GlobalVariable*,uint64_t> GADDR;
static const uint64_t FBASE=0x7000000000000000ull;
static Lower LW;
// stats
static uint64_t S_q=0,S_sat=0,S_unsat=0,S_unk=0,S_cache=0,S_forks=0,S_paths=0,S_assert=0,S_assertq=0,S_steps=0,S_infeasible=0; static double S_solver=0; static std::map<std::string,uint64_t> REACH; static std::map<std::string,uint64_t> INCOMPLETE; 
static bool STOP=false;

struct Violation { std::string kind,msg,loc; std::vector<std::string> trace; std::vector<std::pair<std::string,std::pair<unsigned,uint64_t>>> vals; bool uninit=false; };
static std::vector<Violation> VIOL; static std::set<std::string> VKEYS;

// ------------------------------------------------------------------ solver
static void setp(Z3_context c, Z3_solver s, const char* n, unsigned v){ Z3_params p=Z3_mk_params(c); Z3_params_inc_ref(c,p); Z3_params_set_uint(c,p,Z3_mk_string_symbol(c,n),v); Z3_solver_set_params(c,s,p); Z3_params_dec_ref(c,p); }
enum R { SAT, UNSAT, UNK };
static Z3_solver ZS=nullptr, ZB=nullptr, ZF=nullptr;
struct CacheEnt { R r; std::vector<std::pair<uint32_t,uint64_t>> m; };
struct VH { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h=1469598103934665603ull; for (auto x:v){ h^=x; h*=1099511628211ull; h^=h>>31; } return h; } };
static std::unordered_map<std::vector<uint32_t>,CacheEnt,VH> QC;
static void zerr(Z3_context c, Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); exit(3); }
static R solve(const std::vector<E>& cs, std::vector<std::pair<uint32_t,uint64_t>>* out, bool hard=false) {
  std::vector<uint32_t> key; key.reserve(cs.size()); bool fp=false; for (E e:cs){ key.push_back(e->id); fp|=e->fp; }
  std::sort(key.begin(),key.end());
  auto it=QC.find(key); if (it!=QC.end()){ S_cache++; if (out) *out=it->second.m; return it->second.r; }
  auto t=Clock::now(); S_q++;
  std::vector<uint32_t> vs; for (E e:cs){ auto& v=varsOf(e); vs.insert(vs.end(),v.begin(),v.end()); } std::sort(vs.begin(),vs.end()); vs.erase(std::unique(vs.begin(),vs.end()),vs.end());
  Z3_context c=LW.c; Z3_lbool r=Z3_L_UNDEF; CacheEnt ent;
  for (int round=0; round<2 && r==Z3_L_UNDEF; round++) {
    Z3_solver s;
    if (round==0) { if (fp) continue; s=ZS; } else s = fp?ZF:ZB;
    Z3_solver_reset(c,s);
    for (E e:cs) Z3_solver_assert(c,s,LW.bo(e));
    r=Z3_solver_check(c,s);
    if (r==Z3_L_TRUE) {
      Z3_model m=Z3_solver_get_model(c,s); Z3_model_inc_ref(c,m);
      for (auto v:vs){ Z3_ast val; uint64_t x=0; if (Z3_model_eval(c,m,LW.var(v),true,&val)) Z3_get_numeral_uint64(c,val,&x); ent.m.push_back({v,x}); }
      Z3_model_dec_ref(c,m);
    }
  }
  S_solver+=secs(t,Clock::now());
  ent.r = r==Z3_L_TRUE?SAT:r==Z3_L_FALSE?UNSAT:UNK; if (ent.r==SAT) S_sat++; else if (ent.r==UNSAT) S_unsat++; else S_unk++;
  if (OPT_verbose && secs(t,Clock::now())>0.2) fprintf(stderr,"[slow query %.1fs r=%d n=%zu] %s\n",secs(t,Clock::now()),ent.r,cs.size(),exprStr(cs.back(),8).c_str());
  if (out) *out=ent.m; if (ent.r!=UNK) QC[key]=ent; return ent.r;
}
static void slice(const State& s, E extra, std::vector<E>& out) {
  std::vector<char> used(s.cons.size(),0); std::set<uint32_t> vs(varsOf(extra).begin(),varsOf(extra).end()); bool ch=true;
  while (ch) { ch=false; for (size_t i=0;i<s.cons.size();i++) if(!used[i]) { auto& v=varsOf(s.cons[i]); bool hit=false; for (auto x:v) if (vs.count(x)){hit=true;break;} if (hit){ used[i]=1; ch=true; vs.insert(v.begin(),v.end()); out.push_back(s.cons[i]); } } }
  out.push_back(extra);
}
// is cond possible in s?  On SAT gives a model for the whole state.
static R feasible(State& s, E cond, std::shared_ptr<Model>* m) {
  if (cond->k==KConst) { if (cond->val && m) *m=s.model; return cond->val?SAT:UNSAT; }
  if (evalE(cond,*s.model)) { if (m) *m=s.model; return SAT; }
  std::vector<E> cs; slice(s,cond,cs); std::vector<std::pair<uint32_t,uint64_t>> vals;
  R r=solve(cs,&vals);
  if (r==SAT && m) { auto nm=std::make_shared<Model>(*s.model); if (nm->size()<VARS.size()) nm->resize(VARS.size(),0); for (auto& p:vals) (*nm)[p.first]=p.second;
    // validate
    if (!evalE(cond,*nm)) { bool ok=false; (void)ok; INCOMPLETE["model-mismatch(fp)"]++; if (OPT_verbose) fprintf(stderr,"model mismatch on %s\n",exprStr(cond,12).c_str()); return UNK; }
    *m=nm; }
  return r;
}
static void addc(State& s, E c, std::shared_ptr<Model> m) {
  if (c->k==KConst) return;
  if (c->k==KAnd && c->w==1) { addc(s,c->a,m); addc(s,c->b,m); s.model=m; return; }
  s.cons.push_back(c); s.model=m;
  if (c->k==KEq && c->b->k==KConst) s.known[c->a]=c->b->val;
  else if (c->k==KXor && c->b->k==KConst) s.known[c->a]=0; else s.known[c]=1;
}
// ------------------------------------------------------------------ helpers
static std::string locOf(const Instruction* I){ if (!I) return "?"; if (auto& d=I->getDebugLoc()) { auto* sc=cast<DIScope>(d.getScope()); return sc->getFilename().str()+":"+std::to_string(d.getLine()); } return I->getFunction()->getName().str(); }
static std::vector<std::string> traceOf(State& s){ std::vector<std::string> t; for (int i=(int)s.st.size()-1;i>=0;i--){ Frame& f=s.st[i]; const Instruction* I = i==(int)s.st.size()-1 ? (f.ip<f.bb->ins.size()?f.bb->ins[f.ip].I:nullptr) : s.st[i+1].site? s.st[i+1].site->I:nullptr; t.push_back(f.f->F->getName().str()+" "+locOf(I)); } return t; }
static void recordViolation(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Model> m, bool uninit=false) {
  Violation v; v.kind=kind; v.msg=msg; v.trace=traceOf(s); v.uninit=uninit; std::string inner="?", fn; 
  for (auto& t:v.trace) if (t.find("vflibc")==std::string::npos) { inner=t; break; } v.loc=inner;
  std::string key=kind+"|"+msg+"|"+inner; if (VKEYS.count(key)) return; VKEYS.insert(key);
  for (auto& r:s.syms) v.vals.push_back({VARS[r.var].name,{r.w,evalE(r.e,*m)}});
  VIOL.push_back(v); if (OPT_verbose) fprintf(stderr,"VIOL %s %s @ %s\n",kind.c_str(),msg.c_str(),inner.c_str());
  if (VIOL.size()>=OPT_maxviol) STOP=true;
}
static void incomplete(State& s, const std::string& why){ std::string k=why; auto t=traceOf(s); if (!t.empty()) k+=" @ "+t[0]; INCOMPLETE[k]++; if (OPT_verbose && INCOMPLETE[k]==1) { fprintf(stderr,"INCOMPLETE %s\n",k.c_str()); for (auto& x:t) fprintf(stderr,"   %s\n",x.c_str()); } }

struct PathEnd { int why; };           // thrown: this path is finished
struct Reexec {};                       // thrown: state changed (forked/concretised), run instruction again
static std::vector<State*> WORK;

static State* forkState(State& s){ S_forks++; State* n=new State(s); n->depth++; s.depth++; s.st.back().f->forks++; WORK.push_back(n); return n; }
// Force e to a single value in this state; forks others. Throws Reexec in s after pinning (so caller sees known value).
static uint64_t concretize(State& s, E e) {
  if (e->k==KConst) return e->val;
  auto it=s.known.find(e); if (it!=s.known.end()) return it->second;
  // strip extensions
  if (e->k==KZExt) return concretize(s,e->a);
  if (e->k==KSExt) return (uint64_t)sx(concretize(s,e->a),e->a->w)&maskw(e->w);
  if (e->k==KAdd && e->b->k==KConst) return (concretize(s,e->a)+e->b->val)&maskw(e->w);
  if ((e->k==KMul||e->k==KShl) && e->b->k==KConst) { uint64_t x=concretize(s,e->a); return foldBin(e->k,x,e->b->val,e->w); }
  if (e->k==KAdd) { uint64_t x=concretize(s,e->a), y=concretize(s,e->b); return (x+y)&maskw(e->w); }
  if (e->k==KConcat) { uint64_t x=concretize(s,e->a), y=concretize(s,e->b); return (x<<e->b->w)|y; }
  uint64_t v=evalE(e,*s.model); E eq=mkBin(KEq,e,mkConst(v,e->w));
  E ne=mkNot(eq); std::shared_ptr<Model> m; R r=feasible(s,ne,&m);
  if (r==UNK) { incomplete(s,"solver-unknown(concretize)"); }
  if (r==SAT) { // count enumeration depth through repeated forks of the same instruction
    State* o=forkState(s); addc(*o,ne,m); o->known.erase(e);
    if (++o->enumc[e]>OPT_maxenum) { incomplete(s,"too many values"); WORK.pop_back(); delete o; }
  }
  if (r!=UNSAT) addc(s,eq,s.model);
  s.known[e]=v; return v;
}
static uint64_t conc(State& s, const Val& v, unsigned w){ return v.e? concretize(s,v.e)&maskw(w) : v.c&maskw(w); }
static void checkTaint(State& s, E e, const char* what){ if (OPT_uninit && e->taint) { // depends on uninitialised memory?
    std::shared_ptr<Model> m=s.model; recordViolation(s,"uninit",std::string("use of uninitialised memory in ")+what,m,true); throw PathEnd{1}; } }

// ------------------------------------------------------------------ memory access
static void memErr(State& s, const char* what, uint64_t addr, std::shared_ptr<Model> m) {
  Obj* o=s.mem.get(addr>>SLOT); std::string msg=what;
  if (addr<4096*16) msg+=": null pointer"; else if (!o) msg+=": wild pointer"; else if (o->freed) msg+=": freed memory"; else msg+=": out of bounds (size "+std::to_string(o->size)+")";
  recordViolation(s,"memory",msg,m); throw PathEnd{1};
}
static Obj* resolve(State& s, const Val& p, uint64_t n, uint64_t& off, bool write, const char* what) {
  uint64_t a;
  if (p.e) {
    checkTaint(s,p.e,"address");
    auto it=s.known.find(p.e);
    if (it==s.known.end()) {
      uint64_t v=evalE(p.e,*s.model); Obj* o=s.mem.get(v>>SLOT);
      if (!o||o->freed||n>o->size||v-o->base+n>o->size||v<o->base) memErr(s,what,v,s.model);
      E lo=mkBin(KUle,mkConst(o->base,64),p.e), hi=mkBin(KUle,p.e,mkConst(o->base+o->size-n,64)); E in=mkBin(KAnd,lo,hi);
      std::shared_ptr<Model> m; R r=feasible(s,mkNot(in),&m);
      if (r==UNK) incomplete(s,"solver-unknown(bounds)");
      if (r==SAT) { State* q=forkState(s); addc(*q,mkNot(in),m); addc(s,in,s.model); }   // other side re-executes and resolves or errs
      a=concretize(s,p.e); s.known[p.e]=a;
    } else a=it->second;
  } else a=p.c;
  Obj* o=s.mem.get(a>>SLOT);
  if (!o||o->freed) memErr(s,what,a,s.model);
  off=a-o->base; if (n>o->size||off+n>o->size||off>o->size) memErr(s,what,a,s.model);
  if (write&&o->ro) { recordViolation(s,"memory",std::string(what)+": write to constant",s.model); throw PathEnd{1}; }
  if (write) o=s.mem.getW(a>>SLOT);
  return o;
}
static void fixUninit(State& s, Obj*& o, uint64_t off, uint64_t n) { // give uninitialised bytes symbolic (tainted) contents
  if (o->un.empty()) return; bool any=false; for (uint64_t i=0;i<n;i++) if (o->un[off+i]) {any=true;break;} if(!any) return;
  o=s.mem.getW(o->base>>SLOT); if (o->s.empty()) o->s.assign(o->size,nullptr);
  for (uint64_t i=0;i<n;i++) if (o->un[off+i]) { if (OPT_uninit&&!OPT_concrete) o->s[off+i]=mkVar("uninit",8,true); else o->b[off+i]=0; o->un[off+i]=0; }
}
static Val loadAt(State& s, Obj* o, uint64_t off, unsigned w) {
  unsigned n=(w+7)/8; fixUninit(s,o,off,n); bool sym=false;
  if (!o->s.empty()) for (unsigned i=0;i<n;i++) if (o->s[off+i]) {sym=true;break;}
  if (!sym) { uint64_t v=0; for (unsigned i=0;i<n;i++) v|=(uint64_t)o->b[off+i]<<(8*i); return Val(v&maskw(w)); }
  E r=nullptr; for (unsigned i=0;i<n;i++){ E x=o->s[off+i]?o->s[off+i]:mkConst(o->b[off+i],8); r=r?mkConcat(x,r):x; }
  if (w<8*n) r=mkExtract(r,0,w); return Val(r);
}
static void storeAt(Obj* o, uint64_t off, const Val& v, unsigned w) {
  unsigned n=(w+7)/8; if (!o->un.empty()) for (unsigned i=0;i<n;i++) o->un[off+i]=0;
  if (!v.e) { for (unsigned i=0;i<n;i++) o->b[off+i]=(v.c>>(8*i))&255; if (!o->s.empty()) for (unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size,nullptr);
  E e=v.e; if (w<8*n) e=mkZExt(e,8*n);
  for (unsigned i=0;i<n;i++){ E x=mkExtract(e,8*i,8); if (x->k==KConst){ o->s[off+i]=nullptr; o->b[off+i]=x->val; } else o->s[off+i]=x; }
}
static Val load(State& s, const Val& p, unsigned w){ uint64_t off; Obj* o=resolve(s,p,(w+7)/8,off,false,"read"); return loadAt(s,o,off,w); }
static void store(State& s, const Val& p, const Val& v, unsigned w){ uint64_t off; Obj* o=resolve(s,p,(w+7)/8,off,true,"write"); storeAt(o,off,v,w); }
static void copyMem(State& s, const Val& d, const Val& src, uint64_t n, const char* what){ if(!n) return; uint64_t so,dO; Obj* o1=resolve(s,src,n,so,false,what); 
  std::vector<uint8_t> b(o1->b.begin()+so,o1->b.begin()+so+n), un; std::vector<E> sy; if (!o1->s.empty()) sy.assign(o1->s.begin()+so,o1->s.begin()+so+n); if (!o1->un.empty()) un.assign(o1->un.begin()+so,o1->un.begin()+so+n);
  Obj* o=resolve(s,d,n,dO,true,what); std::copy(b.begin(),b.end(),o->b.begin()+dO);
  bool anys=false; for (E e:sy) if(e) anys=true; if (anys&&o->s.empty()) o->s.assign(o->size,nullptr); if (!o->s.empty()) for (uint64_t i=0;i<n;i++) o->s[dO+i]=anys?sy[i]:nullptr;
  bool anyu=false; for (auto x:un) if(x) anyu=true; if (anyu&&o->un.empty()) o->un.assign(o->size,0); if (!o->un.empty()) for (uint64_t i=0;i<n;i++) o->un[dO+i]=anyu?un[i]:0; }
static std::string cstr(State& s, uint64_t a){ std::string r; for(;;){ Obj* o=s.mem.get(a>>SLOT); if (!o||a-o->base>=o->size) return r; uint64_t off=a-o->base; if (!o->s.empty()&&o->s[off]) return r+"?"; if (!o->b[off]) return r; r+=(char)o->b[off]; a++; if (r.size()>300) return r; } }
static void freeObj(State& s, uint64_t a, const char* what){ if(!a) return; Obj* o=s.mem.get(a>>SLOT);
  if (!o||o->kind!=1||a!=o->base) { recordViolation(s,"memory",std::string(what)+": invalid free",s.model); throw PathEnd{1}; }
  if (o->freed) { recordViolation(s,"memory",std::string(what)+": double free",s.model); throw PathEnd{1}; }
  auto n=std::make_shared<Obj>(); n->base=o->base; n->size=o->size; n->kind=1; n->freed=true; s.mem.liveBytes-=o->size; s.mem.liveCount--; s.mem.set(a>>SLOT,n); }

// ------------------------------------------------------------------ building code
#include "build.inc"
#include "exec.inc"
